"""Models (assumed contracts) of the standard library functions the verified code calls."""
import re, z3
from core import *

MODELS = []


def model(*rxs):
    def d(fn):
        for r in rxs: MODELS.append((re.compile(r), fn))
        return fn
    return d


def install(ex, extra=()):
    ex.models = list(extra) + MODELS


# ------------------------------------------------------------------ helpers
def unref(ty_t): return ty_t


def some(ex, dty, v): return Adt(dty, ex.T.vidx(dty, "Some"), [v])
def none(ex, dty): return Adt(dty, ex.T.vidx(dty, "None"), [])
def ok(ex, dty, v): return Adt(dty, ex.T.vidx(dty, "Ok"), [v])
def err(ex, dty, v): return Adt(dty, ex.T.vidx(dty, "Err"), [v])


def unit(ex, cx): return Adt(cx.dty, 0, [])


def payload(ex, dty, variant="Some"):
    """type of the payload of Option/Result dty"""
    return ex.T.fields(dty, ex.T.vidx(dty, variant))[0]


def pathof(ref, *more):
    return Ref(ref.cell, ref.path + tuple(more))


def deep(ex, st, v):
    """follow references to the value"""
    n = 0
    while isinstance(v, Ref):
        v = ex.read(st, v)
        n += 1
        if n > 6: raise Unsupported("reference chain")
    return v


def strterm(ex, st, v):
    v = deep(ex, st, v)
    if is_t(v) and v.sort() == StrS: return v
    raise Unsupported("string expected, got %r" % (v,))


def clock(ex, st):
    t = fresh(IntS, "now")
    st.add(z3.And(t >= -(1 << 63) * 10**9, t <= I64MAX * 10**9 + 999999999))
    st.ghost["clock"] = st.ghost.get("clock", ()) + (t,)
    return t


MAXT = I64MAX * 10**9 + 999999999
MINT = -(1 << 63) * 10**9


# ------------------------------------------------------------------ strings
@model(r"<std::string::String as std::(ops::Deref|ops::DerefMut|borrow::Borrow<str>|convert::AsRef<str>)>::.*", r"std::string::String::as_str", r"std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow", r"<std::string::String as std::ops::Index<std::ops::RangeFull>>::index", r"<str as std::convert::AsRef<str>>::as_ref", r"std::str::traits::<impl std::ops::Index<std::ops::RangeFull> for str>::index")
def m_strref(ex, st, a, cx): return a[0]


@model(r"<std::string::String as std::convert::From<&str>>::from", r"<(str|std::string::String) as std::string::ToString>::to_string", r"std::str::<impl std::borrow::ToOwned for str>::to_owned", r"<str as std::borrow::ToOwned>::to_owned", r"<&str as std::string::ToString>::to_string", r"<std::string::String as std::clone::Clone>::clone", r"std::str::<impl str>::to_owned", r"<&str as std::convert::Into<std::string::String>>::into", r"<&std::string::String as std::string::ToString>::to_string")
def m_tostring(ex, st, a, cx): return strterm(ex, st, a[0])


@model(r"<T as std::string::ToString>::to_string")
def m_tostring_other(ex, st, a, cx):
    v = deep(ex, st, a[0])
    ty = cx.atys[0]
    while ex.T.t[ty]["k"] == "ref": ty = ex.T.t[ty]["to"]
    try: e = ex.encode(st, v, ty)
    except Unsupported: e = None
    if e is None:
        st.havoced = True
        return fresh(StrS, "tostring")
    if e.sort() == StrS: return e
    return z3.Function("display<%s>" % ex.T.name(ty), e.sort(), StrS)(e)


@model(r"std::string::String::new", r"<std::string::String as std::default::Default>::default")
def m_strnew(ex, st, a, cx): return ex.lit("")


@model(r"<std::string::String as std::cmp::PartialEq(<.*>)?>::(eq|ne)", r"core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)", r"<str as std::cmp::PartialEq(<.*>)?>::(eq|ne)", r"<&str as std::cmp::PartialEq<.*>>::(eq|ne)", r"std::string::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)")
def m_streq(ex, st, a, cx):
    r = strterm(ex, st, a[0]) == strterm(ex, st, a[1])
    return z3.Not(r) if cx.name.endswith("::ne") else r


@model(r"core::str::<impl str>::is_empty", r"std::string::String::is_empty")
def m_strempty(ex, st, a, cx):
    s = strterm(ex, st, a[0])
    l = literal(ex, s)
    if l is not None: return z3.BoolVal(l == "")
    if z3.is_app(s) and s.decl().eq(FROMCHARS): return s.arg(0) <= 0
    n = z3.Function("bytelen", StrS, IntS)(s)
    st.add(z3.And(n >= 0, n <= I64MAX, (n == 0) == (s == ex.lit(""))))
    return n == 0


@model(r"std::string::String::clear")
def m_strclear(ex, st, a, cx):
    r = a[0]
    while isinstance(ex.read(st, r), Ref): r = ex.read(st, r)
    ex.write(st, r, ex.lit(""))
    return unit(ex, cx)


@model(r"std::string::String::push_str", r"<std::string::String as std::ops::AddAssign<&str>>::add_assign", r"<std::string::String as std::ops::Add<&str>>::add")
def m_strpushstr(ex, st, a, cx):
    """an unknown text of the two; nothing is claimed of it"""
    x, y = strterm(ex, st, a[0]), strterm(ex, st, a[1])
    e = ex.lit("")
    r = y if x.eq(e) else x if y.eq(e) else None
    if r is None:
        st.havoced = True
        r = z3.Function("strcat", StrS, StrS, StrS)(x, y)
    if "ops::Add<" in cx.name: return r
    p = a[0]
    while isinstance(ex.read(st, p), Ref): p = ex.read(st, p)
    ex.write(st, p, r)
    return unit(ex, cx)


def strfn(ex, name, *sorts): return z3.Function(name, *sorts)


@model(r"core::str::<impl str>::len", r"std::string::String::len")
def m_strlen(ex, st, a, cx):
    s = strterm(ex, st, a[0])
    n = z3.Function("bytelen", StrS, IntS)(s)
    st.add(z3.And(n >= 0, n <= I64MAX))
    return n


@model(r"std::str::<impl str>::to_lowercase", r"core::str::<impl str>::to_lowercase", r"std::str::<impl str>::to_ascii_lowercase", r"std::str::<impl str>::to_uppercase", r"std::str::<impl str>::to_ascii_uppercase")
def m_lower(ex, st, a, cx):
    return z3.Function(cx.name.rsplit("::", 1)[1], StrS, StrS)(strterm(ex, st, a[0]))


@model(r"core::str::<impl str>::parse::<(.*)>")
def m_parse(ex, st, a, cx):
    s = strterm(ex, st, a[0])
    ty = re.search(r"parse::<(.*)>$", cx.name).group(1)
    okt = payload(ex, cx.dty, "Ok")
    p = z3.Function("parses<%s>" % ty, StrS, BoolS)(s)
    v = z3.Function("parsed<%s>" % ty, StrS, ex.T.sort(okt))(s)
    ex.rng(st, v, okt)
    et = payload(ex, cx.dty, "Err")
    return [(p, ok(ex, cx.dty, v)), (z3.Not(p), lambda s2: err(ex, cx.dty, ex.sym(s2, et, "parseerr")))]


# ------------------------------------------------------------------ formatting
class FmtArg(Opq): pass


@model(r"core::fmt::rt::Argument::<'_>::new_(display|debug)(::<.*>)?")
def m_fmtarg(ex, st, a, cx):
    kind = "display" if "new_display" in cx.name else "debug"
    ty = cx.atys[0]
    v = a[0]
    while ex.T.t[ty]["k"] == "ref":
        ty = ex.T.t[ty]["to"]
        if isinstance(v, Ref): v = ex.read(st, v)
    return Opq("fmtarg", how=kind, v=v, ty=ty)


@model(r"std::fmt::Arguments::<'_>::new::<.*>", r"std::fmt::Arguments::<'_>::from_str(_nonconst)?", r"std::fmt::Arguments::<'_>::new_v1.*", r"std::fmt::Arguments::<'_>::new_const.*")
def m_fmtargs(ex, st, a, cx):
    tpl = ex.read(st, a[0]) if isinstance(a[0], Ref) else a[0]
    args = []
    if len(a) > 1:
        v = ex.read(st, a[1])
        if isinstance(v, Adt): args = list(v.f)
        else: args = None
    if isinstance(tpl, Adt): tpl = bytes(x.as_long() for x in tpl.f)
    return Opq("fmtargs", tpl=tpl, args=args)


def fmt_pieces(tpl):
    """decode a format template: list of bytes (literal) or ints (argument index); None if it uses options"""
    out, i, nxt = [], 0, 0
    while i < len(tpl):
        b = tpl[i]
        if b == 0: return out
        if b < 0x80:
            out.append(bytes(tpl[i + 1:i + 1 + b])); i += 1 + b
        elif b == 0x80:
            n = tpl[i + 1] | tpl[i + 2] << 8
            out.append(bytes(tpl[i + 3:i + 3 + n])); i += 3 + n
        elif b == 0xC0:
            out.append(nxt); nxt += 1; i += 1
        elif b == 0xC8:
            nxt = tpl[i + 1] | tpl[i + 2] << 8
            out.append(nxt); nxt += 1; i += 3
        else: return None
    return out


def show(ex, st, arg):
    """the string an argument displays as"""
    v, ty, kind = arg.d["v"], arg.d["ty"], arg.d["how"]
    if isinstance(v, Opq): return None
    try: e = ex.encode(st, v, ty)
    except Unsupported: return None
    if kind == "display" and e.sort() == StrS: return e
    return z3.Function("%s<%s>" % (kind, ex.T.name(ty)), e.sort(), StrS)(e)


def concat(parts):
    r = None
    f = z3.Function("concat", StrS, StrS, StrS)
    for p in parts: r = p if r is None else f(r, p)
    return r


@model(r"std::fmt::format")
def m_format(ex, st, a, cx):
    v = a[0]
    r = None
    if isinstance(v, Opq) and v.kind == "fmtargs":
        if is_t(v.d["tpl"]): return v.d["tpl"]
        ps = fmt_pieces(v.d["tpl"]) if isinstance(v.d["tpl"], bytes) and v.d["args"] is not None else None
        if ps is not None and ex.keep_format:
            parts = []
            for p in ps:
                if isinstance(p, bytes): parts.append(ex.lit(p.decode("utf8", "replace")))
                else:
                    x = show(ex, st, v.d["args"][p])
                    if x is None: x = fresh(StrS, "fmtarg")
                    parts.append(x)
            if len(parts) == 1: return parts[0]
            if parts: return concat(parts)
    return fresh(StrS, "fmt")


@model(r"std::io::_e?print")
def m_print(ex, st, a, cx): return unit(ex, cx)


@model(r"std::hint::must_use(::<.*>)?", r"std::hint::black_box(::<.*>)?")
def m_id(ex, st, a, cx): return a[0]


# ------------------------------------------------------------------ time
@model(r"std::time::(SystemTime|Instant)::now")
def m_now(ex, st, a, cx): return clock(ex, st)


@model(r"<std::time::(SystemTime|Instant|Duration) as std::clone::Clone>::clone")
def m_timeclone(ex, st, a, cx): return deep(ex, st, a[0])


@model(r"<std::time::(SystemTime|Instant|Duration) as std::cmp::Partial(Eq|Ord)>::(eq|ne|lt|le|gt|ge)")
def m_timecmp(ex, st, a, cx):
    x, y = deep(ex, st, a[0]), deep(ex, st, a[1])
    op = cx.name.rsplit("::", 1)[1]
    return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op]


@model(r"<std::time::(SystemTime|Instant|Duration) as std::cmp::(Partial)?Ord>::(partial_)?cmp")
def m_timecmp3(ex, st, a, cx):
    x, y = deep(ex, st, a[0]), deep(ex, st, a[1])
    dt = cx.dty
    part = "partial_cmp" in cx.name
    oty = payload(ex, dt) if part else dt
    mk = lambda n: (lambda o: some(ex, dt, o) if part else o)(Adt(oty, ex.T.vidx(oty, n), []))
    return [(x < y, mk("Less")), (x == y, mk("Equal")), (x > y, mk("Greater"))]


@model(r"std::time::SystemTime::(checked_add|checked_sub)")
def m_tadd(ex, st, a, cx):
    x, d = deep(ex, st, a[0]), a[1]
    r = x + d if "checked_add" in cx.name else x - d
    c = z3.And(r >= MINT, r <= MAXT)
    return [(c, some(ex, cx.dty, simp(r))), (z3.Not(c), none(ex, cx.dty))]


@model(r"<std::time::SystemTime as std::ops::(Add|Sub)<std::time::Duration>>::(add|sub)")
def m_tadd2(ex, st, a, cx):
    r = a[0] + a[1] if cx.name.endswith("add") else a[0] - a[1]
    c = z3.And(r >= MINT, r <= MAXT)
    return [(c, simp(r)), (z3.Not(c), Panic("time overflow"))]


@model(r"std::time::SystemTime::(duration_since|elapsed)")
def m_since(ex, st, a, cx):
    x = deep(ex, st, a[0])
    if cx.name.endswith("elapsed"): x, y = clock(ex, st), x
    else: y = a[1]
    et = payload(ex, cx.dty, "Err")
    return [(x >= y, ok(ex, cx.dty, simp(x - y))), (x < y, lambda s: err(ex, cx.dty, ex.sym(s, et, "timeerr")))]


NS = {"secs": 10**9, "millis": 10**6, "micros": 10**3, "nanos": 1}


@model(r"std::time::Duration::from_(secs|millis|micros|nanos)")
def m_durfrom(ex, st, a, cx): return simp(a[0] * NS[cx.name.rsplit("_", 1)[1]])


@model(r"std::time::Duration::as_(secs|millis|micros|nanos)")
def m_duras(ex, st, a, cx):
    x = deep(ex, st, a[0])
    return simp(x / NS[cx.name.rsplit("_", 1)[1]])


@model(r"std::time::Duration::as_secs_f(32|64)")
def m_durasf(ex, st, a, cx):
    st.havoced = True
    return z3.Function("dur_" + cx.name.rsplit("::", 1)[1], IntS, ex.T.sort(cx.dty))(deep(ex, st, a[0]))


MAXD = (1 << 64) * 10**9 - 1


@model(r"std::time::Duration::(checked|saturating)_(add|sub|mul)", r"<std::time::Duration as std::ops::(Add|Sub|Mul|AddAssign|SubAssign|MulAssign)(<.*>)?>::(add|sub|mul)(_assign)?", r"<std::time::SystemTime as std::ops::(AddAssign|SubAssign)<std::time::Duration>>::(add|sub)_assign", r"<std::time::Instant as std::ops::(Add|Sub)<std::time::Duration>>::(add|sub)", r"std::time::Instant::checked_(add|sub)")
def m_durarith(ex, st, a, cx):
    op = re.search(r"(add|sub|mul)(_assign)?$", cx.name)
    x, y = deep(ex, st, a[0]), deep(ex, st, a[1])
    r = {"add": x + y, "sub": x - y, "mul": x * y}[op.group(1)]
    lo, hi = (0, MAXD) if "time::Duration as" in cx.name or "Duration::" in cx.name else (MINT, MAXT)
    c = z3.And(r >= lo, r <= hi)
    if "checked_" in cx.name: return [(c, some(ex, cx.dty, simp(r))), (z3.Not(c), none(ex, cx.dty))]
    if "saturating_" in cx.name: return simp(z3.If(r < lo, iv(lo), z3.If(r > hi, iv(hi), r)))
    def yes(s):
        if not op.group(2): return simp(r)
        ex.write(s, a[0], simp(r))
        return unit(ex, cx)
    return [(c, yes), (z3.Not(c), Panic("time overflow"))]


@model(r"std::time::Duration::checked_div", r"<std::time::Duration as std::ops::(Div|DivAssign)<u32>>::div(_assign)?")
def m_durdiv(ex, st, a, cx):
    x, n = deep(ex, st, a[0]), deep(ex, st, a[1])
    if "checked_" in cx.name: return [(n != 0, lambda s: some(ex, cx.dty, simp(x / n))), (n == 0, none(ex, cx.dty))]
    def yes(s):
        if not cx.name.endswith("_assign"): return simp(x / n)
        ex.write(s, a[0], simp(x / n))
        return unit(ex, cx)
    return [(n != 0, yes), (n == 0, Panic("divide by zero"))]


@model(r"std::time::Duration::(is_zero)")
def m_durzero(ex, st, a, cx): return deep(ex, st, a[0]) == 0


@model(r"std::time::Duration::subsec_(nanos|micros|millis)")
def m_dursub(ex, st, a, cx): return simp((deep(ex, st, a[0]) % 10**9) / NS[cx.name.rsplit("_", 1)[1]])


@model(r"std::time::Instant::(duration_since|elapsed|saturating_duration_since)")
def m_instsince(ex, st, a, cx):
    """an instant later than now counts as no time at all"""
    x = deep(ex, st, a[0])
    if cx.name.endswith("elapsed"): x, y = clock(ex, st), x
    else: y = deep(ex, st, a[1])
    return simp(z3.If(x >= y, x - y, iv(0)))


@model(r"std::time::Duration::new")
def m_durnew(ex, st, a, cx): return simp(a[0] * 10**9 + a[1])


# ------------------------------------------------------------------ randomness
@model(r"rand::(thread_rng|rng)", r"rand::rngs::.*::thread_rng")
def m_rng(ex, st, a, cx): return Opq("rng")


@model(r".* as rand(_core)?::RngCore>::next_u(32|64)", r".*RngCore.*::next_u(32|64)")
def m_next(ex, st, a, cx): return ex.sym(st, cx.dty, "rand")


@model(r".*rand::Rng.*::gen_range.*", r".*rand::Rng.*::random_range.*")
def m_gen_range(ex, st, a, cx):
    r = a[1]
    if not (isinstance(r, Adt) and len(r.f) == 2 and is_t(r.f[0])): raise Unsupported("gen_range")
    lo, hi = r.f
    if "RangeInclusive" in cx.name: raise Unsupported("gen_range inclusive")
    v = ex.sym(st, cx.dty, "rand")
    return [(z3.And(lo < hi, v >= lo, v < hi), v), (lo >= hi, Panic("empty range"))]


@model(r".*rand::Rng.*::(gen|random)(::<.*>)?")
def m_gen(ex, st, a, cx): return ex.sym(st, cx.dty, "rand")


# ------------------------------------------------------------------ hash maps
def mapref(ex, st, r):
    while True:
        v = ex.read(st, r)
        if isinstance(v, Ref): r = v; continue
        if isinstance(v, MapV): return r, v
        raise Unsupported("not a map: %r" % (v,))


def keyterm(ex, st, v, m, line=""):
    v = deep(ex, st, v)
    k = ex.encode(st, v, m.kty)
    if ex.key_obligation: ex.key_obligation(ex, st, k, m, line)
    return k


def msel(ex, m, k):
    o = ex.T.opt(m.vty)
    x = simp(z3.Select(m.arr, k))
    return o, x, o[3](x)


@model(r"std::collections::HashMap::<.*>::(new|with_capacity)", r"<std::collections::HashMap<.*> as std::default::Default>::default")
def m_mapnew(ex, st, a, cx):
    T = ex.T
    kt, vt = T.arg(cx.dty, 0), T.arg(cx.dty, 1)
    return MapV(kt, vt, z3.K(T.sort(kt), T.opt(vt)[1]), iv(0))


@model(r"std::collections::HashMap::<.*>::(len|is_empty)")
def m_maplen(ex, st, a, cx):
    r, m = mapref(ex, st, a[0])
    return m.len if cx.name.endswith("len") else m.len == 0


@model(r"std::collections::HashMap::<.*>::contains_key(::<.*>)?")
def m_mapcontains(ex, st, a, cx):
    r, m = mapref(ex, st, a[0])
    o, x, c = msel(ex, m, keyterm(ex, st, a[1], m, cx.line))
    return c


@model(r"std::collections::HashMap::<.*>::(get|get_mut)(::<.*>)?", )
def m_mapget(ex, st, a, cx):
    r, m = mapref(ex, st, a[0])
    k = keyterm(ex, st, a[1], m, cx.line)
    o, x, c = msel(ex, m, k)
    return [(c, some(ex, cx.dty, pathof(r, ("k", k)))), (z3.Not(c), none(ex, cx.dty))]


@model(r"<std::collections::HashMap<.*> as std::ops::Index<.*>>::index")
def m_mapindex(ex, st, a, cx):
    r, m = mapref(ex, st, a[0])
    k = keyterm(ex, st, a[1], m, cx.line)
    o, x, c = msel(ex, m, k)
    return [(c, pathof(r, ("k", k))), (z3.Not(c), Panic("map index of a missing key"))]


def map_set(ex, st, r, m, k, v):
    """v: encoded value or None (remove)"""
    o, x, c = msel(ex, m, k)
    if v is None:
        n = z3.If(c, m.len - 1, m.len)
        a = z3.Store(m.arr, k, o[1])
    else:
        n = z3.If(c, m.len, m.len + 1)
        a = z3.Store(m.arr, k, o[2](v))
    st.add(z3.Implies(c, m.len >= 1))
    n = simp(n)
    m2 = MapV(m.kty, m.vty, a, n)
    st.add(z3.And(n >= 0, n <= I64MAX))
    ex.write(st, r, m2)


@model(r"std::collections::HashMap::<.*>::insert")
def m_mapinsert(ex, st, a, cx):
    r, m = mapref(ex, st, a[0])
    k = keyterm(ex, st, a[1], m, cx.line)
    v = ex.encode(st, a[2], m.vty)
    o, x, c = msel(ex, m, k)
    map_set(ex, st, r, m, k, v)
    if not ex.result_used(st, cx): return UNINIT
    return [(c, lambda s: some(ex, cx.dty, ex.decode(s, simp(o[4](x)), m.vty))), (z3.Not(c), none(ex, cx.dty))]


@model(r"std::collections::HashMap::<.*>::(remove|remove_entry)(::<.*>)?")
def m_mapremove(ex, st, a, cx):
    r, m = mapref(ex, st, a[0])
    k = keyterm(ex, st, a[1], m, cx.line)
    o, x, c = msel(ex, m, k)
    entry = "remove_entry" in cx.name
    def yes(s):
        map_set(ex, s, r, m, k, None)
        v = ex.decode(s, simp(o[4](x)), m.vty)
        if entry: v = Adt(payload(ex, cx.dty), 0, [ex.decode(s, k, m.kty), v])
        return some(ex, cx.dty, v)
    return [(c, yes), (z3.Not(c), none(ex, cx.dty))]


# the entry of a key: where the map is, and the key
@model(r"std::collections::HashMap::<.*>::entry")
def m_mapentry(ex, st, a, cx):
    r, m = mapref(ex, st, a[0])
    k = keyterm(ex, st, a[1], m, cx.line)
    o, x, c = msel(ex, m, k)
    T = ex.T
    e = Opq("entry", r=r, k=k, key=deep(ex, st, a[1]))
    return [(c, Adt(cx.dty, T.vidx(cx.dty, "Occupied"), [e])), (z3.Not(c), Adt(cx.dty, T.vidx(cx.dty, "Vacant"), [e]))]


def entryof(ex, st, v):
    while isinstance(v, Ref): v = ex.read(st, v)
    if not (isinstance(v, Opq) and v.kind == "entry"): raise Unsupported("map entry %r" % (v,))
    return v.d["r"], ex.read(st, v.d["r"]), v.d["k"], v.d["key"]


ENTRY = r"std::collections::hash_map::(OccupiedEntry|VacantEntry)::<.*>"


@model(ENTRY + "::(get|get_mut|into_mut)")
def m_entryget(ex, st, a, cx):
    r, m, k, key = entryof(ex, st, a[0])
    return pathof(r, ("k", k))


@model(ENTRY + "::(key|into_key)")
def m_entrykey(ex, st, a, cx):
    r, m, k, key = entryof(ex, st, a[0])
    return ex.ref_to(st, key) if cx.name.endswith("::key") else key


@model(ENTRY + "::(insert|insert_entry)")
def m_entryinsert(ex, st, a, cx):
    r, m, k, key = entryof(ex, st, a[0])
    o, x, c = msel(ex, m, k)
    v = ex.encode(st, a[1], m.vty)
    if "insert_entry" in cx.name:
        map_set(ex, st, r, m, k, v)
        return Opq("entry", r=r, k=k, key=key)
    if "OccupiedEntry" in cx.name:
        old = ex.decode(st, simp(o[4](x)), m.vty)
        map_set(ex, st, r, m, k, v)
        return old
    map_set(ex, st, r, m, k, v)
    return pathof(r, ("k", k))


@model(ENTRY + "::(remove|remove_entry)")
def m_entryremove(ex, st, a, cx):
    r, m, k, key = entryof(ex, st, a[0])
    o, x, c = msel(ex, m, k)
    v = ex.decode(st, simp(o[4](x)), m.vty)
    map_set(ex, st, r, m, k, None)
    return Adt(cx.dty, 0, [key, v]) if "remove_entry" in cx.name else v


def invoke(ex, st, f, args, dest=None, value=None):
    """go on by calling a closure or a function item"""
    while isinstance(f, Ref): f = ex.read(st, f)
    if isinstance(f, FnV):
        n = ex.T.t[f.ty]["callee"]["inst"]
        inst = ex.c.insts[n] if n >= 0 else {}
        if "blocks" not in inst: raise Unsupported("call of a function without a body")
        return Invoke(inst, list(args), dest, value)
    if not isinstance(f, Adt) or ex.T.t[f.ty]["k"] != "closure": raise Unsupported("call of %r" % (f,))
    b = ex.T.t[f.ty].get("body", -1)
    if b < 0: raise Unsupported("closure without a body")
    inst = ex.c.insts[b]
    me = ex.ref_to(st, f) if ex.T.t[inst["locals"][1]]["k"] == "ref" else f
    return Invoke(inst, [me, Adt(None, 0, args)], dest, value)


@model(r"std::collections::hash_map::Entry::<.*>::(and_modify|or_insert|or_insert_with|key)(::<.*>)?")
def m_entrycomb(ex, st, a, cx):
    e = a[0]
    while isinstance(e, Ref): e = ex.read(st, e)
    if not isinstance(e, Adt): raise Unsupported("map entry")
    r, m, k, key = entryof(ex, st, e.f[0])
    occ = ex.T.variants(e.ty)[e.var]["name"] == "Occupied"
    here = pathof(r, ("k", k))
    if cx.name.endswith("::key"): return ex.ref_to(st, key)
    if "::and_modify" in cx.name: return invoke(ex, st, a[1], [here], Ref(ex.new_cell(st, UNINIT)), e) if occ else e
    if occ: return here
    if "::or_insert_with" in cx.name:
        map_set(ex, st, r, m, k, ex.encode(st, ex.sym(st, m.vty, "entry"), m.vty))
        return invoke(ex, st, a[1], [], here, here)
    map_set(ex, st, r, m, k, ex.encode(st, a[1], m.vty))
    return here


@model(r"std::collections::HashMap::<.*>::clear")
def m_mapclear(ex, st, a, cx):
    r, m = mapref(ex, st, a[0])
    ex.write(st, r, MapV(m.kty, m.vty, z3.K(ex.T.sort(m.kty), ex.T.opt(m.vty)[1]), iv(0)))
    return unit(ex, cx)


@model(r"<std::collections::HashMap<.*> as std::convert::From<\[.*\]>>::from", r"<std::collections::HashMap<.*> as std::iter::FromIterator<\(.*\)>>::from_iter::<\[.*\]>")
def m_mapfrom(ex, st, a, cx):
    T = ex.T
    kt, vt = T.arg(cx.dty, 0), T.arg(cx.dty, 1)
    o = T.opt(vt)
    arr = z3.K(T.sort(kt), o[1])
    lits, n = set(), 0
    if not isinstance(a[0], Adt): raise Unsupported("HashMap::from of a symbolic array")
    for pr in a[0].f:
        k, v = ex.encode(st, pr.f[0], kt), ex.encode(st, pr.f[1], vt)
        arr = z3.Store(arr, k, o[2](v))
        lits.add(k.get_id())
    return MapV(kt, vt, arr, iv(len(lits)))


# ------------------------------------------------------------------ vectors and slices
def seqref(ex, st, r):
    while True:
        v = ex.read(st, r)
        if isinstance(v, Ref): r = v; continue
        if isinstance(v, VecV) or (isinstance(v, Adt) and ex.T.t[v.ty]["k"] in ("array", "slice")): return r, v
        raise Unsupported("not a sequence: %r" % (v,))


def seqval(ex, st, v):
    """VecV of a sequence value or reference"""
    v = deep(ex, st, v)
    return ex.to_vec(st, v)


@model(r"std::vec::Vec::<.*>::(new|with_capacity)", r"<std::vec::Vec<.*> as std::default::Default>::default")
def m_vecnew(ex, st, a, cx):
    ety = ex.T.arg(cx.dty, 0)
    return VecV(ety, ex.T.empty(ety), iv(0))


@model(r"std::vec::Vec::<.*>::(len|is_empty)", r"core::slice::<impl \[.*\]>::(len|is_empty)")
def m_veclen(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    n = ex.seq_len(st, v)
    return n if cx.name.endswith("len") else n == 0


@model(r"<std::vec::Vec<.*> as std::ops::(Deref|DerefMut)>::.*", r"std::vec::Vec::<.*>::as_(mut_)?slice", r"<std::vec::Vec<.*> as std::convert::AsRef<\[.*\]>>::as_ref", r"<std::vec::Vec<.*> as std::borrow::Borrow<\[.*\]>>::borrow", r"std::array::<impl \[.*\]>::as_slice")
def m_vecderef(ex, st, a, cx): return a[0]


@model(r"std::vec::Vec::<.*>::push")
def m_push(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    e = ex.encode(st, a[1], v.ety)
    n = simp(v.len + 1)
    st.add(n <= I64MAX)
    ex.write(st, r, VecV(v.ety, z3.Store(v.arr, v.len, e), n))
    return unit(ex, cx)


@model(r"std::vec::Vec::<.*>::pop")
def m_pop(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    def yes(s):
        x = ex.decode(s, simp(z3.Select(v.arr, simp(v.len - 1))), v.ety)
        ex.write(s, r, VecV(v.ety, v.arr, simp(v.len - 1)))
        return some(ex, cx.dty, x)
    return [(v.len > 0, yes), (v.len <= 0, none(ex, cx.dty))]


def range_of(ex, st, x, n, name):
    """(lo, hi) of a range argument over a sequence of length n"""
    m = re.search(r"(RangeFull|RangeInclusive|RangeToInclusive|RangeFrom|RangeTo|Range)\b", name)
    k = m.group(1)
    if k == "RangeFull": return iv(0), n
    if k == "Range": return x.f[0], x.f[1]
    if k == "RangeFrom": return x.f[0], n
    if k == "RangeTo": return iv(0), x.f[0]
    if k == "RangeToInclusive": return iv(0), simp(x.f[0] + 1)
    if k == "RangeInclusive" and isinstance(x, Adt) and len(x.f) == 3: return x.f[0], simp(x.f[1] + 1)
    raise Unsupported("range " + k)


@model(r"<std::vec::Vec<.*> as std::ops::Index(Mut)?<usize>>::index(_mut)?", r"<\[.*\] as std::ops::Index(Mut)?<usize>>::index(_mut)?", r"core::slice::index::<impl std::ops::Index(Mut)?<usize> for \[.*\]>::index(_mut)?")
def m_vecindex(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    n = ex.seq_len(st, v)
    c = z3.And(a[1] >= 0, a[1] < n)
    return [(c, pathof(r, ("i", a[1]))), (z3.Not(c), Panic("index out of bounds"))]


@model(r"<std::vec::Vec<.*> as std::ops::Index(Mut)?<std::ops::Range.*>>::index(_mut)?", r"core::slice::index::<impl std::ops::Index(Mut)?<std::ops::Range.*> for \[.*\]>::index(_mut)?", r"std::array::<impl std::ops::Index(Mut)?<std::ops::Range.*> for \[.*\]>::index(_mut)?", r"<\[.*\] as std::ops::Index(Mut)?<std::ops::Range.*>>::index(_mut)?")
def m_vecrange(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    n = ex.seq_len(st, v)
    lo, hi = range_of(ex, st, a[1], n, cx.name.split("Index")[1])
    c = z3.And(lo >= 0, lo <= hi, hi <= n)
    return [(c, pathof(r, ("s", lo, hi))), (z3.Not(c), Panic("range out of bounds"))]


@model(r"core::slice::<impl \[.*\]>::(get|get_mut)::<usize>")
def m_sliceget(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    n = ex.seq_len(st, v)
    c = z3.And(a[1] >= 0, a[1] < n)
    return [(c, some(ex, cx.dty, pathof(r, ("i", a[1])))), (z3.Not(c), none(ex, cx.dty))]


@model(r"core::slice::<impl \[.*\]>::(get|get_mut)::<std::ops::Range.*>")
def m_slicegetr(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    n = ex.seq_len(st, v)
    lo, hi = range_of(ex, st, a[1], n, cx.name.split("get")[-1])
    c = z3.And(lo >= 0, lo <= hi, hi <= n)
    return [(c, some(ex, cx.dty, pathof(r, ("s", lo, hi)))), (z3.Not(c), none(ex, cx.dty))]


@model(r"core::slice::<impl \[.*\]>::(first|last|first_mut|last_mut)")
def m_first(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    n = ex.seq_len(st, v)
    ix = iv(0) if "first" in cx.name.rsplit("::", 1)[1] else simp(n - 1)
    return [(n > 0, some(ex, cx.dty, pathof(r, ("i", ix)))), (n <= 0, none(ex, cx.dty))]


@model(r"std::vec::Vec::<.*>::swap_remove")
def m_swap_remove(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    c = z3.And(a[1] >= 0, a[1] < v.len)
    def yes(s):
        x = ex.decode(s, simp(z3.Select(v.arr, a[1])), v.ety)
        ex.write(s, r, VecV(v.ety, z3.Store(v.arr, a[1], z3.Select(v.arr, simp(v.len - 1))), simp(v.len - 1)))
        return x
    return [(c, yes), (z3.Not(c), Panic("swap_remove index out of bounds"))]


@model(r"std::vec::Vec::<.*>::remove")
def m_remove(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    c = z3.And(a[1] >= 0, a[1] < v.len)
    def yes(s):
        x = ex.decode(s, simp(z3.Select(v.arr, a[1])), v.ety)
        i = z3.Int("rm_i")
        ex.write(s, r, VecV(v.ety, z3.Lambda([i], z3.If(i < a[1], z3.Select(v.arr, i), z3.Select(v.arr, i + 1))), simp(v.len - 1)))
        return x
    return [(c, yes), (z3.Not(c), Panic("remove index out of bounds"))]


@model(r"std::vec::Vec::<.*>::insert")
def m_insert(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    e = ex.encode(st, a[2], v.ety)
    c = z3.And(a[1] >= 0, a[1] <= v.len)
    def yes(s):
        i = z3.Int("ins_i")
        ex.write(s, r, VecV(v.ety, z3.Lambda([i], z3.If(i < a[1], z3.Select(v.arr, i), z3.If(i == a[1], e, z3.Select(v.arr, i - 1)))), simp(v.len + 1)))
        s.add(v.len + 1 <= I64MAX)
        return unit(ex, cx)
    return [(c, yes), (z3.Not(c), Panic("insert index out of bounds"))]


def shifted(ex, arr, k):
    """the sequence without its first k elements"""
    i = z3.Int("shift_i")
    return z3.Lambda([i], z3.Select(arr, i + k))


def joined(a, n, b):
    """the first n elements of a, then those of b"""
    i = z3.Int("join_i")
    return z3.Lambda([i], z3.If(i < n, z3.Select(a, i), z3.Select(b, i - n)))


@model(r"std::vec::Vec::<.*>::drain::<.*>")
def m_drain(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    lo, hi = range_of(ex, st, a[1], v.len, cx.name.split("drain::")[1])
    c = z3.And(lo >= 0, lo <= hi, hi <= v.len)
    def yes(s):
        ex.write(s, r, VecV(v.ety, joined(v.arr, lo, shifted(ex, v.arr, hi)) if not hi.eq(v.len) else v.arr, simp(v.len - (hi - lo))))
        return Iter("own", VecV(v.ety, v.arr, v.len), lo, hi, v.ety)
    return [(c, yes), (z3.Not(c), Panic("drain range out of bounds"))]


@model(r"std::vec::Vec::<.*>::split_off")
def m_splitoff(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    c = z3.And(a[1] >= 0, a[1] <= v.len)
    def yes(s):
        ex.write(s, r, VecV(v.ety, v.arr, a[1]))
        return VecV(v.ety, shifted(ex, v.arr, a[1]), simp(v.len - a[1]))
    return [(c, yes), (z3.Not(c), Panic("split_off index out of bounds"))]


def appended(ex, st, r, v, w):
    n = simp(v.len + w.len)
    st.add(n <= I64MAX)
    m = simp(w.len)
    if z3.is_int_value(m) and m.as_long() <= 16:
        arr = v.arr
        for i in range(m.as_long()): arr = z3.Store(arr, simp(v.len + i), simp(z3.Select(w.arr, i)))
    elif z3.is_int_value(simp(v.len)) and simp(v.len).as_long() == 0: arr = w.arr
    else: arr = joined(v.arr, v.len, w.arr)
    ex.write(st, r, VecV(v.ety, arr, n))


@model(r"std::vec::Vec::<.*>::(append|extend_from_slice)")
def m_append(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    r2, w = seqref(ex, st, a[1])
    w = ex.to_vec(st, w)
    appended(ex, st, r, v, w)
    if cx.name.endswith("append"): ex.write(st, r2, VecV(v.ety, w.arr, iv(0)))
    return unit(ex, cx)


@model(r"<std::vec::Vec<.*> as std::iter::Extend<.*>>::extend::<std::vec::Vec<.*>>")
def m_extendvec(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    if not isinstance(a[1], VecV): return NotImplemented
    appended(ex, st, r, v, a[1])
    return unit(ex, cx)


@model(r"core::slice::<impl \[.*\]>::reverse")
def m_reverse(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    v = ex.to_vec(st, v)
    i = z3.Int("rev_i")
    ex.write(st, r, VecV(v.ety, z3.Lambda([i], z3.Select(v.arr, v.len - 1 - i)), v.len))
    return unit(ex, cx)


@model(r"core::slice::<impl \[.*\]>::swap")
def m_swap(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    v = ex.to_vec(st, v)
    c = z3.And(a[1] >= 0, a[1] < v.len, a[2] >= 0, a[2] < v.len)
    def yes(s):
        x, y = z3.Select(v.arr, a[1]), z3.Select(v.arr, a[2])
        ex.write(s, r, VecV(v.ety, z3.Store(z3.Store(v.arr, a[1], y), a[2], x), v.len))
        return unit(ex, cx)
    return [(c, yes), (z3.Not(c), Panic("swap index out of bounds"))]


@model(r"std::vec::Vec::<.*>::(clear|truncate)")
def m_clear(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    n = iv(0) if cx.name.endswith("clear") else z3.If(a[1] < v.len, a[1], v.len)
    ex.write(st, r, VecV(v.ety, v.arr, simp(n)))
    return unit(ex, cx)


@model(r"<std::vec::Vec<.*> as std::clone::Clone>::clone", r"<std::collections::HashMap<.*> as std::clone::Clone>::clone", r"core::slice::<impl \[.*\]>::to_vec", r"std::slice::<impl \[.*\]>::to_vec")
def m_clone(ex, st, a, cx):
    v = deep(ex, st, a[0])
    return ex.to_vec(st, v) if isinstance(v, Adt) else v


# iterators over sequences
@model(r"core::slice::<impl \[.*\]>::iter(_mut)?", r"<&(mut )?std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter", r"<&(mut )?\[.*\] as std::iter::IntoIterator>::into_iter",
       r"core::slice::iter::<impl std::iter::IntoIterator for &.*>::into_iter", r"std::slice::iter::<impl std::iter::IntoIterator for &.*>::into_iter", r"std::array::<impl std::iter::IntoIterator for &.*>::into_iter", r"core::array::<impl std::iter::IntoIterator for &.*>::into_iter")
def m_iter(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    ety = v.ety if isinstance(v, VecV) else ex.T.t[v.ty]["elem"]
    return Iter("ref", r, iv(0), ex.seq_len(st, v), ety)


@model(r"<std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter")
def m_intoiter(ex, st, a, cx):
    v = ex.to_vec(st, a[0])
    return Iter("own", v, iv(0), v.len, v.ety)


@model(r"<std::(slice::Iter(Mut)?<.*>|vec::(IntoIter|Drain)<.*>|str::Chars<.*>|iter::(Take|Skip)<std::(slice::Iter(Mut)?|vec::IntoIter|array::IntoIter)<.*>>) as std::iter::IntoIterator>::into_iter")
def m_iterid(ex, st, a, cx): return a[0]


@model(r"<std::(slice::Iter(Mut)?<.*>|vec::(IntoIter|Drain)<.*>|str::Chars<.*>|array::IntoIter<.*>|iter::(Take|Skip)<std::(slice::Iter(Mut)?|vec::IntoIter|array::IntoIter)<.*>>) as std::iter::Iterator>::next")
def m_iternext(ex, st, a, cx):
    it = ex.read(st, a[0])
    if not isinstance(it, Iter): raise Unsupported("iterator %r" % (it,))
    def yes(s):
        ex.write(s, a[0], Iter(it.kind, it.seq, simp(it.pos + 1), it.end, it.ety))
        if it.kind == "ref": return some(ex, cx.dty, pathof(it.seq, ("i", it.pos)))
        return some(ex, cx.dty, ex.decode(s, simp(z3.Select(it.seq.arr, it.pos)), it.ety))
    return [(it.pos < it.end, yes), (it.pos >= it.end, none(ex, cx.dty))]


@model(r"<std::(slice::Iter(Mut)?<.*>|vec::(IntoIter|Drain)<.*>|str::Chars<.*>|array::IntoIter<.*>|iter::(Take|Skip)<std::(slice::Iter(Mut)?|vec::IntoIter|array::IntoIter)<.*>>) as std::iter::DoubleEndedIterator>::next_back")
def m_iternextback(ex, st, a, cx):
    it = ex.read(st, a[0])
    if not isinstance(it, Iter): raise Unsupported("iterator %r" % (it,))
    def yes(s):
        e = simp(it.end - 1)
        ex.write(s, a[0], Iter(it.kind, it.seq, it.pos, e, it.ety))
        if it.kind == "ref": return some(ex, cx.dty, pathof(it.seq, ("i", e)))
        return some(ex, cx.dty, ex.decode(s, simp(z3.Select(it.seq.arr, e)), it.ety))
    return [(it.pos < it.end, yes), (it.pos >= it.end, none(ex, cx.dty))]


@model(r"<std::(slice::Iter(Mut)?<.*>|vec::IntoIter<.*>|array::IntoIter<.*>) as std::iter::ExactSizeIterator>::len", r"<std::str::Chars<.*> as std::iter::Iterator>::count", r"<std::(slice::Iter<.*>|vec::IntoIter<.*>) as std::iter::Iterator>::count")
def m_iterlen(ex, st, a, cx):
    it = deep(ex, st, a[0])
    if not isinstance(it, Iter): raise Unsupported("iterator %r" % (it,))
    return simp(it.end - it.pos)


@model(r"<std::(slice::Iter(Mut)?<.*>|vec::IntoIter<.*>|array::IntoIter<.*>) as std::iter::Iterator>::(take|skip)")
def m_itertake(ex, st, a, cx):
    it = deep(ex, st, a[0])
    if not isinstance(it, Iter): raise Unsupported("iterator %r" % (it,))
    n = a[1]
    at = z3.If(n < it.end - it.pos, it.pos + n, it.end)
    return Iter(it.kind, it.seq, it.pos, simp(at), it.ety) if cx.name.endswith("take") else Iter(it.kind, it.seq, simp(at), it.end, it.ety)


@model(r"<\[.*; \d+\] as std::iter::IntoIterator>::into_iter", r"std::array::iter::<impl std::iter::IntoIterator for \[.*\]>::into_iter")
def m_arrayinto(ex, st, a, cx):
    v = ex.to_vec(st, a[0])
    return Iter("own", v, iv(0), v.len, v.ety)


# ------------------------------------------------------------------ boxes
@model(r"std::boxed::Box::<.*>::new")
def m_boxnew(ex, st, a, cx): return a[0]


@model(r"std::boxed::Box::<.*>::new_uninit(_in)?")
def m_boxuninit(ex, st, a, cx): return UNINIT


@model(r"std::boxed::box_assume_init_into_vec_unsafe::<.*>", r"std::slice::<impl \[.*\]>::into_vec")
def m_box2vec(ex, st, a, cx):
    v = a[0]
    while isinstance(v, Adt) and ex.T.t[v.ty]["k"] == "adt" and len(v.f) == 1: v = v.f[0]
    return ex.to_vec(st, v)


@model(r"<std::boxed::Box<.*> as std::ops::(Deref|DerefMut)>::.*", r"<std::boxed::Box<.*> as std::(convert::AsRef|borrow::Borrow)<.*>>::.*")
def m_boxderef(ex, st, a, cx): return a[0]


@model(r"<std::boxed::Box<.*> as std::ops::Drop>::drop", r"std::mem::drop::<.*>")
def m_drop(ex, st, a, cx): return unit(ex, cx)


@model(r"<std::boxed::Box<(std::string::String)> as std::clone::Clone>::clone")
def m_boxclone(ex, st, a, cx): return deep(ex, st, a[0])


@model(r"<std::boxed::Box<.*> as std::cmp::PartialEq>::(eq|ne)")
def m_boxeq(ex, st, a, cx):
    if "Box<std::string::String>" in cx.name:
        r = strterm(ex, st, a[0]) == strterm(ex, st, a[1])
        return r if cx.name.endswith("eq") else z3.Not(r)
    return NotImplemented


# ------------------------------------------------------------------ panics
@model(r"core::panicking::.*", r"std::rt::begin_panic.*", r"std::option::(unwrap_failed|expect_failed)", r"std::result::unwrap_failed(::<.*>)?(::unwrap_failed_inner)?", r"std::rt::panic_fmt", r"core::(option|result|slice|str)::.*_fail(ed)?(::.*)?", r"std::alloc::handle_alloc_error")
def m_panic(ex, st, a, cx):
    return [(None, Panic("call to " + cx.name.split("::<")[0]))]


@model(r".*::precondition_check")
def m_pre(ex, st, a, cx): return unit(ex, cx)


# ------------------------------------------------------------------ memory
@model(r"std::mem::(replace)::<.*>")
def m_replace(ex, st, a, cx):
    v = ex.read(st, a[0])
    ex.write(st, a[0], a[1])
    return v


@model(r"std::mem::swap::<.*>")
def m_memswap(ex, st, a, cx):
    x, y = ex.read(st, a[0]), ex.read(st, a[1])
    ex.write(st, a[0], y); ex.write(st, a[1], x)
    return unit(ex, cx)


@model(r"std::cmp::(min|max)::<(usize|u64|i64|u32|i32|u8)>", r"<(usize|u64|i64|u32|i32|u8) as std::cmp::Ord>::(min|max)", r"std::cmp::Ord::(min|max)")
def m_minmax(ex, st, a, cx):
    if not (is_t(a[0]) and a[0].sort() == IntS): return NotImplemented
    mn = "min" in cx.name.rsplit("::", 1)[1] or "::min" in cx.name
    return z3.If(a[0] <= a[1], a[0], a[1]) if mn else z3.If(a[0] >= a[1], a[0], a[1])


@model(r"std::intrinsics::integer_(min|max)(::<.*>)?", r"core::intrinsics::integer_(min|max)(::<.*>)?")
def m_intminmax(ex, st, a, cx):
    if not (is_t(a[0]) and a[0].sort() == IntS): return NotImplemented
    return z3.If(a[0] <= a[1], a[0], a[1]) if "integer_min" in cx.name else z3.If(a[0] >= a[1], a[0], a[1])


@model(r"core::num::<impl (u\w+|i\w+)>::abs_diff")
def m_absdiff(ex, st, a, cx): return z3.If(a[0] >= a[1], a[0] - a[1], a[1] - a[0])


@model(r"core::num::<impl (u\w+|i\w+)>::(checked|wrapping|saturating|overflowing)_(add|sub|mul)")
def m_num(ex, st, a, cx):
    mm = re.match(r".*::(checked|wrapping|saturating|overflowing)_(add|sub|mul)", cx.name)
    mode, op = mm.groups()
    r = {"add": a[0] + a[1], "sub": a[0] - a[1], "mul": a[0] * a[1]}[op]
    lo, hi = ex.T.int_range(cx.atys[0])
    c = z3.And(r >= lo, r <= hi)
    if mode == "checked": return [(c, some(ex, cx.dty, simp(r))), (z3.Not(c), none(ex, cx.dty))]
    if mode == "wrapping": return ex.wrap(r, cx.atys[0])
    if mode == "saturating": return z3.If(r < lo, iv(lo), z3.If(r > hi, iv(hi), r))
    return Adt(cx.dty, 0, [ex.wrap(r, cx.atys[0]), z3.Not(c)])


# ------------------------------------------------------------------ clones
# Clone of a local type is replaced by its contract "the clone equals the original", which is itself
# verified against every local Clone implementation (contracts in specs/values.py).
@model(r"<.* as std::clone::Clone>::clone", r"std::clone::impls::<impl std::clone::Clone for .*>::clone", r"std::option::Option::<&.*>::(cloned|copied)")
def m_anyclone(ex, st, a, cx):
    if ex.top_name == cx.name: return NotImplemented
    if "Option::<&" in cx.name:
        v = a[0]
        if isinstance(v, Adt):
            if not v.f: return none(ex, cx.dty)
            return some(ex, cx.dty, ex.read(st, v.f[0]))
        raise Unsupported("cloned of a symbolic option")
    if cx.inst is not None: ex.clones.add(cx.name)
    return ex.read(st, a[0])


# ------------------------------------------------------------------ hashing (a hasher only records what it is fed)
@model(r"<(.*) as std::hash::Hash>::hash::<.*>", r"std::hash::Hash::hash::<.*>", r"core::hash::impls::<impl std::hash::Hash for (.*)>::hash::<.*>", r"<std::hash::DefaultHasher as std::hash::Hasher>::write(_\w+)?")
def m_hash(ex, st, a, cx):
    if "Hasher>::write" in cx.name: h, v, ty = a[0], a[1], cx.atys[1]
    else: h, v, ty = a[1], a[0], cx.atys[0]
    if "server::" in cx.name.split(" as ")[0] and cx.inst is not None and "blocks" in cx.inst: return NotImplemented
    while ex.T.t[ty]["k"] == "ref":
        ty = ex.T.t[ty]["to"]
        if isinstance(v, Ref): v = ex.read(st, v)
    st.events.append(("hash", ex.T.name(ty), ex.encode(st, v, ty)))
    return unit(ex, cx)


@model(r"std::mem::discriminant::<.*>")
def m_discriminant(ex, st, a, cx):
    ty = ex.T.t[cx.atys[0]]["to"]
    v = ex.read(st, a[0])
    if isinstance(v, Adt): return iv(int(ex.T.variants(ty)[v.var]["discr"]))
    return ex.discr_int(DiscrOf(v, ty))


# ------------------------------------------------------------------ characters and text
WHITE, NUMERIC, ALPHA = [z3.Function("char_" + n, IntS, BoolS) for n in ("white", "numeric", "alphabetic")]
CharArr = z3.ArraySort(IntS, IntS)
FROMCHARS = z3.Function("fromchars", IntS, CharArr, StrS)      # the text of the first n characters of an array
NCHARS, CHARS = z3.Function("nchars", StrS, IntS), z3.Function("chars", StrS, CharArr)
SUB = z3.Function("subchars", CharArr, IntS, IntS, CharArr)    # the k characters from lo, after an empty tail
CHARHAS = z3.Function("charhas", CharArr, IntS, IntS, BoolS)
STRPUSH = z3.Function("strpush", StrS, IntS, StrS)


def between(c, a, b): return z3.And(c >= ord(a), c <= ord(b))


def char_facts(c):
    """what the character classes are: exact for ASCII; blanks are neither letters nor numbers"""
    digit, letter = between(c, "0", "9"), z3.Or(between(c, "a", "z"), between(c, "A", "Z"))
    blank = z3.Or(c == 32, z3.And(c >= 9, c <= 13))
    w, n, l = WHITE(c), NUMERIC(c), ALPHA(c)
    return z3.And(z3.Implies(c < 128, z3.And(w == blank, n == digit, l == letter)), z3.Not(z3.And(w, z3.Or(n, l))))


@model(r"std::char::methods::<impl char>::is_(whitespace|numeric|alphabetic|alphanumeric|control)", r"core::char::methods::<impl char>::is_(whitespace|numeric|alphabetic|alphanumeric|control)")
def m_charclass(ex, st, a, cx):
    c = deep(ex, st, a[0])
    k = cx.name.rsplit("is_", 1)[1]
    if k == "control": return z3.Or(c < 32, z3.And(c >= 127, c < 160))
    if not z3.is_int_value(c): st.add(char_facts(c))
    else: st.add(char_facts(c))
    return {"whitespace": WHITE(c), "numeric": NUMERIC(c), "alphabetic": ALPHA(c), "alphanumeric": z3.Or(ALPHA(c), NUMERIC(c))}[k]


def charhas(ex, st, arr, n, c):
    st.add(has_facts(arr, n, c))
    return CHARHAS(arr, n, c)


def has_facts(arr, n, c):
    """what follows from the meaning of CHARHAS: is c among the first n characters of arr?"""
    out = [z3.Implies(n <= 0, z3.Not(CHARHAS(arr, n, c))), z3.Implies(n > 0, CHARHAS(arr, n, c) == z3.Or(z3.Select(arr, n - 1) == c, CHARHAS(arr, n - 1, c))), z3.Implies(n <= 1, z3.Not(CHARHAS(arr, n - 1, c)))]
    while z3.is_store(arr):
        k = arr.arg(1)
        out.append(z3.Implies(k >= 0, CHARHAS(arr, k, c) == CHARHAS(arr.arg(0), k, c)))
        arr = arr.arg(0)
    return z3.And(out)


def literal(ex, t):
    """the Python string of a literal, or None"""
    for s, x in ex.lits.items():
        if x.eq(t): return s
    return None


@model(r"core::str::<impl str>::(contains|starts_with|ends_with)::<char>")
def m_strhaschar(ex, st, a, cx):
    s = strterm(ex, st, a[0])
    l = literal(ex, s)
    op = re.search(r"::(contains|starts_with|ends_with)::", cx.name).group(1)
    if l is None:
        if op == "contains" and z3.is_app(s) and s.decl().eq(FROMCHARS): return charhas(ex, st, s.arg(1), s.arg(0), a[1])
        return z3.Function("str_" + op, StrS, IntS, BoolS)(s, a[1])
    cs = l if op == "contains" else l[:1] if op == "starts_with" else l[-1:]
    return z3.Or([a[1] == ord(x) for x in cs]) if cs else z3.BoolVal(False)


PURE = {"contains": BoolS, "starts_with": BoolS, "ends_with": BoolS, "eq_ignore_ascii_case": BoolS, "is_char_boundary": BoolS,
        "trim": StrS, "trim_start": StrS, "trim_end": StrS, "trim_matches": StrS, "trim_start_matches": StrS, "trim_end_matches": StrS, "replace": StrS, "replacen": StrS, "repeat": StrS}


@model(r"(core|std)::str::<impl str>::(contains|starts_with|ends_with|eq_ignore_ascii_case|is_char_boundary|trim|trim_start|trim_end|trim_matches|trim_start_matches|trim_end_matches|replace|replacen|repeat)(::<.*>)?")
def m_strpure(ex, st, a, cx):
    """a function of its arguments of which nothing else is known"""
    op = re.search(r"::<impl str>::(\w+)", cx.name).group(1)
    ts = []
    for x in a:
        x = deep(ex, st, x)
        if not is_t(x): return NotImplemented
        ts.append(x)
    if all(literal(ex, t) is not None for t in ts):
        ls = [literal(ex, t) for t in ts]
        if op == "contains": return z3.BoolVal(ls[1] in ls[0])
        if op == "starts_with": return z3.BoolVal(ls[0].startswith(ls[1]))
        if op == "ends_with": return z3.BoolVal(ls[0].endswith(ls[1]))
    if op == "contains" and z3.is_app(ts[0]) and ts[0].decl().eq(FROMCHARS) and len(literal(ex, ts[1]) or "") == 1: return charhas(ex, st, ts[0].arg(1), ts[0].arg(0), iv(ord(literal(ex, ts[1]))))
    st.havoced = True
    r = z3.Function("str_%s<%s>" % (op, ",".join(str(t.sort()) for t in ts)), *[t.sort() for t in ts], PURE[op])(*ts)
    return r


@model(r"core::str::<impl str>::find::<(char|&str)>")
def m_strfind(ex, st, a, cx):
    s, x = strterm(ex, st, a[0]), deep(ex, st, a[1])
    l = literal(ex, s)
    if l is not None and x.sort() == IntS:
        out = []
        for i, c in enumerate(l):
            if c in l[:i]: continue
            out.append((x == ord(c), some(ex, cx.dty, iv(len(l[:i].encode())))))
        return out + [(z3.And([x != ord(c) for c in l]), none(ex, cx.dty))]
    st.havoced = True
    has = z3.Function("str_contains<%s>" % x.sort(), StrS, x.sort(), BoolS)(s, x)
    at = z3.Function("str_find<%s>" % x.sort(), StrS, x.sort(), IntS)(s, x)
    def yes(s2):
        s2.add(z3.And(at >= 0, at <= I64MAX))
        return some(ex, cx.dty, at)
    return [(has, yes), (z3.Not(has), none(ex, cx.dty))]


@model(r"core::slice::<impl \[(char|u8|i64|usize|u64)\]>::contains", )
def m_slicecontains(ex, st, a, cx):
    v = deep(ex, st, a[0])
    x = deep(ex, st, a[1])
    if isinstance(v, Adt): return z3.Or([x == y for y in v.f]) if v.f else z3.BoolVal(False)
    if isinstance(v, VecV) and z3.is_int_value(simp(v.len)): return z3.Or([x == z3.Select(v.arr, i) for i in range(simp(v.len).as_long())])
    if isinstance(v, VecV) and ex.T.name(v.ety) == "char" and z3.is_int_value(x): return charhas(ex, st, v.arr, v.len, x)
    return NotImplemented


@model(r"core::str::<impl str>::chars")
def m_chars(ex, st, a, cx):
    s = strterm(ex, st, a[0])
    ety = next(i for i, t in enumerate(ex.T.t) if t["k"] == "char")
    l = literal(ex, s)
    if l is not None:
        arr = ex.T.empty(ety)
        for i, c in enumerate(l): arr = z3.Store(arr, i, iv(ord(c)))
        return Iter("own", VecV(ety, arr, iv(len(l))), iv(0), iv(len(l)), ety)
    n, arr = (s.arg(0), s.arg(1)) if z3.is_app(s) and s.decl().eq(FROMCHARS) else chars_of(ex, st, s)
    return Iter("own", VecV(ety, arr, n), iv(0), n, ety)


def whole_text(it):
    """the text whose characters, all of them, this iterator yields; or None"""
    if not isinstance(it, Iter) or not isinstance(it.seq, VecV) or not z3.is_app(it.seq.arr): return None
    if it.seq.arr.decl().eq(CHARS) and z3.is_int_value(it.pos) and it.pos.as_long() == 0 and it.end.eq(NCHARS(it.seq.arr.arg(0))): return it.seq.arr.arg(0)


def chars_of(ex, st, s):
    n = NCHARS(s)
    st.add(z3.And(n >= 0, n <= I64MAX))
    return n, CHARS(s)


@model(r"<std::vec::Vec<char> as std::iter::FromIterator<char>>::from_iter::<std::str::Chars<'_>>")
def m_veccharsof(ex, st, a, cx):
    it = a[0]
    if not isinstance(it, Iter) or not isinstance(it.seq, VecV): raise Unsupported("chars iterator")
    if z3.is_int_value(it.pos) and it.pos.as_long() == 0: return VecV(ex.T.arg(cx.dty, 0), it.seq.arr, it.end)
    return NotImplemented


@model(r"<std::string::String as std::iter::FromIterator<&?char>>::from_iter::<.*>")
def m_strfrom(ex, st, a, cx):
    it = a[0]
    w = whole_text(it)
    if w is not None: return w
    if not isinstance(it, Iter): return NotImplemented
    lo = it.pos
    if isinstance(it.seq, Ref):
        p = it.seq.path
        base = it.seq
        if p and p[-1][0] == "s":
            base = Ref(it.seq.cell, p[:-1])
            lo = simp(lo + p[-1][1])
        v = deep(ex, st, base)
        v = ex.to_vec(st, v)
    else: v = ex.to_vec(st, it.seq)
    n = simp(it.end - it.pos)
    return FROMCHARS(n, v.arr if z3.is_int_value(lo) and lo.as_long() == 0 else SUB(v.arr, lo, n))


@model(r"std::string::String::push")
def m_strpush(ex, st, a, cx):
    r = a[0]
    while isinstance(ex.read(st, r), Ref): r = ex.read(st, r)
    ex.write(st, r, STRPUSH(strterm(ex, st, r), a[1]))
    return unit(ex, cx)
