"""Models (assumed contracts) of byte streams, the HTTP parser, UTF-8 and JSON, and the events the HTTP
contracts judge.

Ghost state: g:in.len, g:in.arr are all the bytes received so far, in order; g:closed says that the peer
has closed the connection (or reading failed).
Events:
  ("read", stream, n, room)     n bytes arrived (n None: the read failed)
  ("parse", len, arr, room)     the bytes given to the HTTP parser, room: how many headers fit
  ("write", stream, bytes, ok)  bytes handed to the stream as a whole
  ("part", stream)              a write that may accept only some of its bytes
  ("flush", stream, ok)
  ("accept", stream | None)
  ("fmt", pieces, ok)           pieces written to a Formatter
"""
import re, z3
from core import *
from models import deep, some, none, ok, err, unit, payload, strterm, seqref, seqval, show, fmt_pieces, concat, literal

HTTP = []
ByteArr = z3.ArraySort(IntS, IntS)


def model(*rxs):
    def d(fn):
        for r in rxs: HTTP.append((re.compile(r), fn))
        return fn
    return d


def u8(ex):
    for i, t in enumerate(ex.T.t):
        if t["name"] == "u8": return i
    raise Unsupported("no u8")


# ------------------------------------------------------------------ sequences of bytes
APPEND = z3.Function("append_bytes", IntS, ByteArr, IntS, ByteArr, ByteArr)     # n bytes of the second after the first


def append(ln, arr, n, data):
    """(length, array)"""
    return simp(ln + n), APPEND(ln, arr, n, data)


def start_input(ex, st):
    st.ghost["g:in.len"] = iv(0)
    st.ghost["g:in.arr"] = ex.T.empty(u8(ex))
    st.ghost["g:closed"] = z3.BoolVal(False)


def arrive(ex, st, stream, ref, buf):
    """what a read may do: fail, or fill the buffer with 0 < n bytes, or report the end with 0"""
    room = ex.seq_len(st, buf)
    n = fresh(IntS, "got")
    data = fresh(ByteArr, "data")
    st.add(z3.And(n >= 0, n <= room))
    ety = buf.ety if isinstance(buf, VecV) else ex.T.t[buf.ty]["elem"]
    ex.write(st, ref, VecV(ety, data, room))
    if "g:in.len" in st.ghost:
        st.ghost["g:closed"] = simp(z3.Or(st.ghost["g:closed"], z3.And(n == 0, room > 0)))
        st.ghost["g:in.len"], st.ghost["g:in.arr"] = append(st.ghost["g:in.len"], st.ghost["g:in.arr"], n, data)
    st.events.append(("read", stream, n, room))
    return n


def fail_read(ex, st, stream):
    if "g:in.len" in st.ghost: st.ghost["g:closed"] = z3.BoolVal(True)
    st.events.append(("read", stream, None, None))


@model(r"<std::net::TcpStream as std::io::Read>::read", r"<&std::net::TcpStream as std::io::Read>::read")
def m_read(ex, st, a, cx):
    stream = deep(ex, st, a[0])
    ref, buf = seqref(ex, st, a[1])
    et = payload(ex, cx.dty, "Err")
    def good(s): return ok(ex, cx.dty, arrive(ex, s, stream, ref, buf))
    def bad(s):
        fail_read(ex, s, stream)
        return err(ex, cx.dty, ex.sym(s, et, "ioerr"))
    return [(None, good), (None, bad)]


@model(r"<std::vec::Vec<u8> as std::iter::Extend<&?u8>>::extend::<.*>", r"std::vec::Vec::<u8>::extend_from_slice", r"std::vec::Vec::<u8>::append")
def m_extend(ex, st, a, cx):
    r, v = seqref(ex, st, a[0])
    v = ex.to_vec(st, v)
    x = a[1]
    if isinstance(x, Iter):
        if not (z3.is_int_value(simp(x.pos)) and simp(x.pos).as_long() == 0): raise Unsupported("extend from the middle of an iterator")
        w = ex.to_vec(st, deep(ex, st, x.seq)) if isinstance(x.seq, Ref) else x.seq
        w = VecV(w.ety, w.arr, x.end)
    else: w = seqval(ex, st, x)
    n, arr = append(v.len, v.arr, w.len, w.arr)
    st.add(n <= I64MAX)
    ex.write(st, r, VecV(v.ety, arr, n))
    if cx.name.endswith("::append"): ex.write(st, seqref(ex, st, a[1])[0], VecV(w.ety, ex.T.empty(w.ety), iv(0)))
    return unit(ex, cx)


# ------------------------------------------------------------------ the HTTP parser
PCOMPLETE, PPARTIAL = [z3.Function("http_" + n, IntS, ByteArr, BoolS) for n in ("complete", "partial")]
PSTART = z3.Function("http_body_start", IntS, ByteArr, IntS)
PMETHOD = z3.Function("http_method", IntS, ByteArr, StrS)
PCOUNT = z3.Function("http_header_count", IntS, ByteArr, IntS)


def PHEADERS(ex, hty): return z3.Function("http_headers", IntS, ByteArr, z3.ArraySort(IntS, ex.T.sort(hty)))


@model(r"httparse::Request::<.*>::new")
def m_reqnew(ex, st, a, cx):
    T = ex.T
    f = []
    for i, t in enumerate(T.fields(cx.dty)):
        n = T.variants(cx.dty)[0]["fields"][i][0]
        f.append(a[0] if n == "headers" else none(ex, t))
    return Adt(cx.dty, 0, f)


@model(r"httparse::Request::<.*>::parse")
def m_reqparse(ex, st, a, cx):
    T = ex.T
    r = a[0]
    while isinstance(ex.read(st, r), Ref): r = ex.read(st, r)
    q = ex.read(st, r)
    if not isinstance(q, Adt): raise Unsupported("an HTTP request of unknown shape")
    names = [f[0] for f in T.variants(q.ty)[0]["fields"]]
    fts = T.fields(q.ty)
    room = ex.seq_len(st, seqval(ex, st, q.f[names.index("headers")]))
    v = seqval(ex, st, a[1])
    ln, arr = v.len, v.arr
    st.events.append(("parse", ln, arr, room))
    ht = T.t[fts[names.index("headers")]]["to"]
    hty = T.t[ht]["elem"]
    c, p = PCOMPLETE(ln, arr), PPARTIAL(ln, arr)
    st.add(z3.Not(z3.And(c, p)))
    ot = payload(ex, cx.dty, "Ok")
    et = payload(ex, cx.dty, "Err")
    def put(s, method, headers):
        f = []
        for n, t, old in zip(names, fts, q.f):
            if n == "method": f.append(method)
            elif n == "headers": f.append(ex.ref_to(s, headers))
            else: f.append(ex.sym(s, t, n))
        ex.write(s, r, Adt(q.ty, 0, f))
    def complete(s):
        k, b = PCOUNT(ln, arr), PSTART(ln, arr)
        s.add(z3.And(k >= 0, k <= room, b >= 0, b <= ln))
        mt = fts[names.index("method")]
        put(s, some(ex, mt, ex.ref_to(s, PMETHOD(ln, arr))), VecV(hty, PHEADERS(ex, hty)(ln, arr), k))
        return ok(ex, cx.dty, Adt(ot, T.vidx(ot, "Complete"), [b]))
    def unsure(s):
        put(s, ex.sym(s, fts[names.index("method")], "method"), ex.sym_vec(s, hty, "headers"))
    def partial(s):
        unsure(s)
        return ok(ex, cx.dty, Adt(ot, T.vidx(ot, "Partial"), []))
    def bad(s):
        unsure(s)
        return err(ex, cx.dty, ex.sym(s, et, "parseerr"))
    return [(c, complete), (p, partial), (z3.And(z3.Not(c), z3.Not(p)), bad)]


@model(r"httparse::Status::<.*>::is_(complete|partial)")
def m_status(ex, st, a, cx):
    v = deep(ex, st, a[0])
    if not isinstance(v, Adt): raise Unsupported("status")
    return z3.BoolVal(ex.T.variants(v.ty)[v.var]["name"].lower() == cx.name.rsplit("_", 1)[1])


# ------------------------------------------------------------------ text
def LOWER(ex, s):
    l = literal(ex, s)
    return ex.lit(l.lower()) if l is not None and l.isascii() else z3.Function("to_ascii_lowercase", StrS, StrS)(s)


@model(r"core::str::<impl str>::eq_ignore_ascii_case")
def m_eqic(ex, st, a, cx): return LOWER(ex, strterm(ex, st, a[0])) == LOWER(ex, strterm(ex, st, a[1]))


@model(r"std::str::<impl str>::to_ascii_lowercase", r"core::str::<impl str>::to_ascii_lowercase")
def m_lower(ex, st, a, cx): return LOWER(ex, strterm(ex, st, a[0]))


UTFOK = z3.Function("is_utf8", IntS, ByteArr, BoolS)
UTF = z3.Function("utf8", IntS, ByteArr, StrS)
LOSSY = z3.Function("utf8_lossy", IntS, ByteArr, StrS)


def bytes_of(ex, st, v):
    v = seqval(ex, st, v)
    return v.len, v.arr


@model(r"std::string::String::from_utf8", r"core::str::from_utf8", r"std::str::from_utf8", r"core::str::converts::from_utf8")
def m_utf8(ex, st, a, cx):
    ln, arr = bytes_of(ex, st, a[0])
    et = payload(ex, cx.dty, "Err")
    t = UTF(ln, arr)
    v = t if cx.name.startswith("std::string") else None
    def good(s): return ok(ex, cx.dty, t if v is not None else ex.ref_to(s, t))
    return [(UTFOK(ln, arr), good), (z3.Not(UTFOK(ln, arr)), lambda s: err(ex, cx.dty, ex.sym(s, et, "utf8err")))]


@model(r"std::string::String::from_utf8_lossy")
def m_lossy(ex, st, a, cx):
    ln, arr = bytes_of(ex, st, a[0])
    t = LOSSY(ln, arr)
    st.add(z3.Implies(UTFOK(ln, arr), t == UTF(ln, arr)))
    return Adt(cx.dty, ex.T.vidx(cx.dty, "Owned"), [t])


@model(r"std::borrow::Cow::<'_, str>::(into_owned|to_mut)", r"<std::borrow::Cow<'_, str> as std::string::ToString>::to_string", r"<std::borrow::Cow<'_, str> as std::ops::Deref>::deref", r"<std::borrow::Cow<'_, str> as std::convert::AsRef<str>>::as_ref")
def m_cow(ex, st, a, cx):
    v = deep(ex, st, a[0])
    if not isinstance(v, Adt): raise Unsupported("cow")
    t = strterm(ex, st, v.f[0])
    return ex.ref_to(st, t) if ex.T.t[cx.dty]["k"] == "ref" else t


def BYTES(ex, ety): return z3.Function("bytes_of", StrS, ex.T.vec_sort(ety))


@model(r"std::string::String::(as_bytes|into_bytes)", r"core::str::<impl str>::as_bytes")
def m_asbytes(ex, st, a, cx):
    s = strterm(ex, st, a[0])
    e = u8(ex)
    ln, ar, mk = ex.T.vec_fns(e)
    b = BYTES(ex, e)(s)
    n = z3.Function("bytelen", StrS, IntS)(s)
    st.add(z3.And(ln(b) == n, n >= 0, n <= I64MAX))
    v = VecV(e, ar(b), ln(b))
    return v if cx.name.endswith("into_bytes") else ex.ref_to(st, v)


# ------------------------------------------------------------------ JSON
def JTYPES(ex):
    for i, t in enumerate(ex.T.t):
        if t["name"] == "serde_json::Value": return i
    raise Unsupported("no serde_json::Value")


def JOK(s): return z3.Function("json_ok", StrS, BoolS)(s)
def JVAL(ex, s): return z3.Function("json_value", StrS, ex.T.sort(JTYPES(ex)))(s)


@model(r"serde_json::from_str::<.*serde_json::Value>")
def m_fromstr(ex, st, a, cx):
    s = strterm(ex, st, a[0])
    et = payload(ex, cx.dty, "Err")
    return [(JOK(s), lambda q: ok(ex, cx.dty, ex.decode(q, JVAL(ex, s), payload(ex, cx.dty, "Ok")))), (z3.Not(JOK(s)), lambda q: err(ex, cx.dty, ex.sym(q, et, "jsonerr")))]


@model(r"serde_json::from_slice::<.*serde_json::Value>")
def m_fromslice(ex, st, a, cx):
    ln, arr = bytes_of(ex, st, a[0])
    s = UTF(ln, arr)
    good = z3.And(UTFOK(ln, arr), JOK(s))
    et = payload(ex, cx.dty, "Err")
    return [(good, lambda q: ok(ex, cx.dty, ex.decode(q, JVAL(ex, s), payload(ex, cx.dty, "Ok")))), (z3.Not(good), lambda q: err(ex, cx.dty, ex.sym(q, et, "jsonerr")))]


def MHAS(m, k): return z3.Function("json_has", m.sort(), StrS, BoolS)(m, k)
def MGET(ex, m, k): return z3.Function("json_member", m.sort(), StrS, ex.T.sort(JTYPES(ex)))(m, k)


@model(r"serde_json::Map::<.*>::get::<.*>")
def m_jget(ex, st, a, cx):
    m, k = deep(ex, st, a[0]), strterm(ex, st, a[1])
    if not is_t(m): raise Unsupported("json map")
    return [(MHAS(m, k), lambda s: some(ex, cx.dty, ex.ref_to(s, ex.decode(s, MGET(ex, m, k), JTYPES(ex))))), (z3.Not(MHAS(m, k)), none(ex, cx.dty))]


@model(r"serde_json::Value::(get::<&str>|as_object|as_str)", r"serde_json::value::<impl serde_json::Value>::(get::<&str>|as_object|as_str)")
def m_jvalue(ex, st, a, cx):
    T = ex.T
    jt = JTYPES(ex)
    v = ex.encode(st, deep(ex, st, a[0]), jt)
    s = T.sort(jt)
    op = re.search(r"(get|as_object|as_str)", cx.name.rsplit("Value", 1)[1]).group(1)
    vi = T.vidx(jt, "String" if op == "as_str" else "Object")
    c = s.recognizer(vi)(v)
    x = s.accessor(vi, 0)(v)
    if op == "as_str": return [(c, lambda q: some(ex, cx.dty, ex.ref_to(q, x))), (z3.Not(c), none(ex, cx.dty))]
    if op == "as_object": return [(c, lambda q: some(ex, cx.dty, ex.ref_to(q, x))), (z3.Not(c), none(ex, cx.dty))]
    k = strterm(ex, st, a[1])
    g = z3.And(c, MHAS(x, k))
    return [(g, lambda q: some(ex, cx.dty, ex.ref_to(q, ex.decode(q, MGET(ex, x, k), jt)))), (z3.Not(g), none(ex, cx.dty))]


def TOVALUE(ex, s): return z3.Function("to_json<%s>" % s, s, ex.T.sort(JTYPES(ex)))
def JTEXT(ex): return z3.Function("json_text", ex.T.sort(JTYPES(ex)), StrS)


@model(r"serde_json::to_value::<.*>")
def m_tovalue(ex, st, a, cx):
    """serialising a response does not fail (assumed; exercised natively)"""
    ty = cx.atys[0]
    v = ex.encode(st, deep(ex, st, a[0]), ty)
    return ok(ex, cx.dty, ex.decode(st, TOVALUE(ex, v.sort())(v), payload(ex, cx.dty, "Ok")))


@model(r"serde_json::to_string::<.*>")
def m_tojson(ex, st, a, cx):
    ty = cx.atys[0]
    v = ex.encode(st, deep(ex, st, a[0]), ty)
    if v.sort().eq(ex.T.sort(JTYPES(ex))): return ok(ex, cx.dty, JTEXT(ex)(v))
    return ok(ex, cx.dty, JTEXT(ex)(TOVALUE(ex, v.sort())(v)))


@model(r"<serde_json::Value as std::string::ToString>::to_string")
def m_jsontext(ex, st, a, cx): return JTEXT(ex)(ex.encode(st, deep(ex, st, a[0]), JTYPES(ex)))


# ------------------------------------------------------------------ writing
def wrote(ex, st, cx, ev):
    """both outcomes of an operation that only succeeds or fails"""
    et = payload(ex, cx.dty, "Err")
    def good(s):
        s.events.append(ev + (True,))
        return ok(ex, cx.dty, Adt(payload(ex, cx.dty, "Ok"), 0, []))
    def bad(s):
        s.events.append(ev + (False,))
        return err(ex, cx.dty, ex.sym(s, et, "ioerr"))
    return [(None, good), (None, bad)]


def vecterm(ex, st, v):
    v = seqval(ex, st, v)
    ln, ar, mk = ex.T.vec_fns(v.ety)
    if v.arr.decl().eq(ar) and v.len.decl().eq(ln) and v.arr.arg(0).eq(v.len.arg(0)): return v.arr.arg(0)
    return mk(v.len, v.arr)


@model(r"<&?std::net::TcpStream as std::io::Write>::write_all")
def m_writeall(ex, st, a, cx): return wrote(ex, st, cx, ("write", deep(ex, st, a[0]), vecterm(ex, st, a[1])))


@model(r"<&?std::net::TcpStream as std::io::Write>::flush")
def m_flush(ex, st, a, cx): return wrote(ex, st, cx, ("flush", deep(ex, st, a[0])))


@model(r"<&?std::net::TcpStream as std::io::Write>::write")
def m_write(ex, st, a, cx):
    n = fresh(IntS, "written")
    v = seqval(ex, st, a[1])
    et = payload(ex, cx.dty, "Err")
    st.events.append(("part", deep(ex, st, a[0])))
    st.add(z3.And(n >= 0, n <= v.len))
    return [(None, lambda s: ok(ex, cx.dty, n)), (None, lambda s: err(ex, cx.dty, ex.sym(s, et, "ioerr")))]


def flatten(t):
    """a text as a list of its parts"""
    if z3.is_app(t) and t.decl().name() == "concat": return flatten(t.arg(0)) + flatten(t.arg(1))
    return [t]


def text_of(ex, st, v):
    """the text of fmt::Arguments"""
    if is_t(v): return v
    if not (isinstance(v, Opq) and v.kind == "fmtargs"): raise Unsupported("format arguments")
    if is_t(v.d["tpl"]): return v.d["tpl"]
    ps = fmt_pieces(v.d["tpl"]) if isinstance(v.d["tpl"], bytes) and v.d["args"] is not None else None
    if ps is None: raise Unsupported("format options")
    parts = []
    for p in ps:
        if isinstance(p, bytes): parts.append(ex.lit(p.decode("utf8", "replace")))
        else:
            x = show(ex, st, v.d["args"][p])
            if x is None: raise Unsupported("formatted value")
            parts.append(x)
    return concat(parts) if parts else ex.lit("")


@model(r"std::fmt::Formatter::<'_>::(write_fmt|write_str|pad)", r"<std::fmt::Formatter<'_> as std::fmt::Write>::(write_fmt|write_str)", r"<str as std::fmt::Display>::fmt", r"<std::string::String as std::fmt::Display>::fmt")
def m_writefmt(ex, st, a, cx):
    if cx.name.endswith("Display>::fmt"): t = strterm(ex, st, a[0])
    elif cx.name.endswith("write_fmt"): t = text_of(ex, st, a[1])
    else: t = strterm(ex, st, a[1])
    return wrote(ex, st, cx, ("fmt", t))


@model(r"<&?std::net::TcpStream as std::io::Write>::write_fmt")
def m_streamfmt(ex, st, a, cx):
    t = text_of(ex, st, a[1])
    return wrote(ex, st, cx, ("write", deep(ex, st, a[0]), BYTES(ex, u8(ex))(t)))


@model(r"std::net::TcpListener::accept")
def m_accept(ex, st, a, cx):
    pt = payload(ex, cx.dty, "Ok")
    et = payload(ex, cx.dty, "Err")
    def good(s):
        f = [ex.sym(s, t, "conn") for t in ex.T.fields(pt)]
        s.events.append(("accept", f[0]))
        return ok(ex, cx.dty, Adt(pt, 0, f))
    def bad(s):
        s.events.append(("accept", None))
        return err(ex, cx.dty, ex.sym(s, et, "ioerr"))
    return [(None, good), (None, bad)]


# settings of a stream that do not change what is read or written
@model(r"std::net::TcpStream::(set_nodelay|set_ttl)")
def m_streamopt(ex, st, a, cx): return ex.sym(st, cx.dty, "opt")
