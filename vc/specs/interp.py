"""Contracts of the interpreter: C08 and C09 (each statement), C06 (authorisation), C07 (order).

The storage is used through its contracts (proved in specs/storage.py): the abstract state is the map
M : key -> element, an operation may read the clock at any time and may drop an entry that has expired.
"""
import re
from engine import *
from models import deep, clock, some, none, ok, err, unit, payload, pathof, strterm, MAXT
from specs.storage import PRE, cases
from specs.values import Vals, Seq, Tab

HMS = "server::storage::hashmap_storage::HashMapStorage"
INT = "server::analysis::interpreter::Interpreter<%s>" % HMS
STMT = "server::analysis::statements::Statement"
RESP = "server::analysis::interpreter::InterpreterResponse"
ERR = "server::error::ServerError"


def tid(T, name):
    for i, t in enumerate(T.t):
        if t["name"] == name: return i
    raise Lost("type " + name)


class Elem:
    """terms over StorageElement"""
    def __init__(self, T, et):
        self.T, self.et = T, et
        self.s = T.sort(et)
        self.ki, self.vi, self.xi = T.fidx(et, "key"), T.fidx(et, "value"), T.fidx(et, "expiration")
        self.xt = T.fields(et)[self.xi]
        self.xs = T.sort(self.xt)
        self.xsm, self.xn = T.vidx(self.xt, "Some"), T.vidx(self.xt, "None")
    def key(self, e): return self.s.accessor(0, self.ki)(e)
    def value(self, e): return self.s.accessor(0, self.vi)(e)
    def exp(self, e): return self.s.accessor(0, self.xi)(e)
    def hasexp(self, e): return self.xs.recognizer(self.xsm)(self.exp(e))
    def expt(self, e): return self.xs.accessor(self.xsm, 0)(self.exp(e))


class Store:
    """the abstract storage inside an interpreter"""
    def __init__(self, ex):
        T = ex.T
        self.et = tid(T, "server::storage::types::StorageElement")
        self.E = Elem(T, self.et)
        self.o = T.opt(self.et)
        self.strt = tid(T, "std::string::String")
        self.hms = tid(T, HMS)

    def fresh(self, ex, st):
        T = ex.T
        m = MapV(self.strt, self.et, fresh(z3.ArraySort(StrS, self.o[0]), "M"), fresh(IntS, "mlen"))
        st.add(m.len >= 0)
        return m

    def has(self, m, k): return self.o[3](z3.Select(m.arr, k))
    def elem(self, m, k): return self.o[4](z3.Select(m.arr, k))

    def absent(self, m, k, t): return z3.Or(z3.Not(self.has(m, k)), z3.And(self.E.hasexp(self.elem(m, k)), t >= self.E.expt(self.elem(m, k))))
    def present(self, m, k, t): return z3.And(self.has(m, k), z3.Or(z3.Not(self.E.hasexp(self.elem(m, k))), t <= self.E.expt(self.elem(m, k))))
    def expired(self, m, k, t): return z3.And(self.has(m, k), self.E.hasexp(self.elem(m, k)), t >= self.E.expt(self.elem(m, k)))

    def put(self, m, k, e): return MapV(m.kty, m.vty, z3.Store(m.arr, k, self.o[2](e)), m.len)
    def drop(self, m, k): return MapV(m.kty, m.vty, z3.Store(m.arr, k, self.o[1]), m.len)


def m_storage(ex, st, a, cx):
    """the contracts of the Storage methods"""
    S = ex.store
    meth = cx.name.rsplit("::", 1)[1]
    ex.contract_calls.add(cx.name)
    r = a[0]
    while True:
        m = ex.read(st, r)
        if isinstance(m, Ref): r = m; continue
        break
    if not isinstance(m, MapV): return NotImplemented
    st.events.append(("storage", meth))
    t = clock(ex, st)
    rt = cx.dty
    def put(s, m2): ex.write(s, r, m2)
    if meth in ("len", "expiring_keys_count"): return ok(ex, rt, ex.sym(st, payload(ex, rt, "Ok"), meth))
    et = payload(ex, rt, "Err")
    keyerr = lambda s: Adt(rt, ex.T.vidx(rt, "Err"), [Adt(et, ex.T.vidx(et, "KeyError"), [fresh(StrS, "msg")])])
    if meth == "invalidate_expired_keys":
        q = fresh(StrS, "victim")
        return [(None, lambda s: ok(ex, rt, iv(0))),
                (S.expired(m, q, t), lambda s: (put(s, S.drop(m, q)), s.ghost.__setitem__("dropped", s.ghost.get("dropped", ()) + (q,)), ok(ex, rt, iv(1)))[2])]
    k = strterm(ex, st, a[1])
    P, A, X = S.present(m, k, t), S.absent(m, k, t), S.expired(m, k, t)
    def droppable(cond, f):
        """the outcome, with and without dropping the expired entry"""
        def g(s): put(s, S.drop(m, k)); return f(s)
        return [(cond, f), (z3.And(cond, X), g)]
    elem = lambda s: ex.decode(s, simp(S.elem(m, k)), S.et)
    enc = lambda s, v: ex.encode(s, deep(ex, s, v), S.et)
    okv = lambda v: (lambda s: ok(ex, rt, v))
    u = Adt(payload(ex, rt, "Ok"), 0, [])
    if meth == "get": return [(P, lambda s: ok(ex, rt, elem(s)))] + droppable(A, keyerr)
    if meth == "get_if_exists":
        ot = payload(ex, rt, "Ok")
        return [(P, lambda s: ok(ex, rt, some(ex, ot, elem(s))))] + droppable(A, okv(none(ex, ot)))
    if meth == "get_mut": return [(P, okv(pathof(r, ("k", k))))] + droppable(A, keyerr)
    if meth == "contains_key": return [(P, okv(z3.BoolVal(True)))] + droppable(A, okv(z3.BoolVal(False)))
    if meth == "set": return [(None, lambda s: (put(s, S.put(m, k, enc(s, a[2]))), ok(ex, rt, u))[1])]
    if meth == "update": return [(P, lambda s: (put(s, S.put(m, k, enc(s, a[2]))), ok(ex, rt, u))[1])] + droppable(A, keyerr)
    if meth == "set_if_not_exists": return [(A, lambda s: (put(s, S.put(m, k, enc(s, a[2]))), ok(ex, rt, z3.BoolVal(True)))[1]), (P, okv(z3.BoolVal(False)))]
    if meth == "delete": return [(P, lambda s: (put(s, S.drop(m, k)), ok(ex, rt, z3.BoolVal(True)))[1])] + droppable(A, okv(z3.BoolVal(False)))
    if meth == "update_expiration":
        def yes(s):
            e = elem(s)
            f = list(e.f); f[S.E.xi] = deep(ex, s, a[2])
            put(s, S.put(m, k, ex.encode(s, Adt(S.et, 0, f), S.et)))
            return ok(ex, rt, u)
        return [(P, yes)] + droppable(A, keyerr)
    if meth == "check_and_expire":
        # Ok(true): it was there, had expired and is gone; otherwise nothing changes
        return [(X, lambda s: (put(s, S.drop(m, k)), ok(ex, rt, z3.BoolVal(True)))[1]), (P, okv(z3.BoolVal(False))), (z3.Not(S.has(m, k)), okv(z3.BoolVal(False))), (z3.Not(S.has(m, k)), keyerr)]
    raise Unsupported("storage method " + meth)


STORAGE = [(re.compile(re.escape(PRE) + r".*"), m_storage)]


def find_statement_fn(p):
    """the function that runs one statement: (&mut Interpreter, Statement) -> Result<Response, Error>"""
    T = p.T
    out = []
    for i in p.crate.insts:
        if "blocks" not in i or i.get("argc") != 2 or not i["name"].startswith("server::"): continue
        l = i["locals"]
        a = T.t[l[1]]
        if a["k"] == "ref" and T.name(a["to"]) == INT and T.name(l[2]) == STMT and T.name(l[0]) == "std::result::Result<%s, %s>" % (RESP, ERR): out.append(i)
    if len(out) != 1: raise Lost("%d functions run one statement" % len(out))
    return out[0]


def interp_value(ex, st, S):
    """an interpreter holding an abstract store; (Ref, place of the store)"""
    T = ex.T
    it = tid(T, INT)
    fs = T.fields(it)
    si = [i for i, f in enumerate(fs) if f == S.hms]
    if len(si) != 1: raise Lost("storage field of the interpreter")
    m = S.fresh(ex, st)
    vals = [m if i == si[0] else ex.sym(st, f, "self") for i, f in enumerate(fs)]
    r = ex.ref_to(st, Adt(it, 0, vals))
    return r, Ref(r.cell, (("f", si[0], it),)), m


class One:
    """one way a statement can end"""
    def __init__(s, ex, st, S, V, m0, place, ret, rt, f):
        s.ex, s.st, s.S, s.V, s.m0, s.ret, s.rt, s.f = ex, st, S, V, m0, ret, rt, f
        s.m = ex.read(st, place)
        s.k = f[0] if f else None
        s.ts = st.ghost.get("clock", ())
        s.tags = ["C08"]
    def at(s, st): s2 = One.__new__(One); s2.__dict__.update(s.__dict__); s2.st = st; return s2
    def prove(s, name, goal, tags=None): return prove(s.ex, s.st, tags or s.tags, name, goal)
    def any(s, f): return z3.Or([f(t) for t in s.ts]) if s.ts else z3.BoolVal(False)
    def absent(s): return z3.Or(z3.Not(s.S.has(s.m0, s.k)), s.any(lambda t: s.S.expired(s.m0, s.k, t)))
    def present(s): return z3.And(s.S.has(s.m0, s.k), z3.Or(z3.Not(s.S.E.hasexp(s.old())), s.any(lambda t: t <= s.S.E.expt(s.old()))))
    def old(s): return s.S.elem(s.m0, s.k)
    def new(s): return s.S.elem(s.m, s.k)
    def kept(s):
        q = fresh(StrS, "anykey")
        a, b = z3.Select(s.m0.arr, q), z3.Select(s.m.arr, q)
        s.prove("nothing is changed (an expired entry of the same key may be dropped)",
                z3.Or(a == b, z3.And(q == s.k, z3.Not(s.S.o[3](b)), s.any(lambda t: s.S.expired(s.m0, q, t)))) if s.k is not None else a == b)
    def frame(s):
        q = fresh(StrS, "anykey")
        s.prove("no other entry is changed", z3.Implies(q != s.k, z3.Select(s.m0.arr, q) == z3.Select(s.m.arr, q)))
    def stored(s):
        s.prove("the entry is there afterwards", s.S.has(s.m, s.k))
    def gone(s): s.prove("the entry is gone", z3.Not(s.S.has(s.m, s.k))); s.frame()
    def valt(s): return s.S.E.value(s.old())
    def case(s, cond, fn):
        """fn on the states where cond holds"""
        if not s.ex.feasible(s.st, cond): return
        st = s.st.copy(); st.add(cond)
        fn(s.at(st))
    def resp(s, variant):
        """(is that response, payload terms)"""
        T = s.ex.T
        rt = payload(s.ex, s.rt, "Ok")
        i = T.vidx(rt, variant)
        v = s.body
        if isinstance(v, Adt): return z3.BoolVal(v.var == i), (v.f if v.var == i else None)
        srt = T.sort(rt)
        return srt.recognizer(i)(v), [srt.accessor(i, j)(v) for j in range(len(T.fields(rt, i)))]
    def answers(s, variant, check=None, name=None):
        c, f = s.resp(variant)
        good = s.prove("it answers with a %s response" % variant, c)
        if check is None: return
        if z3.is_false(simp(c)) or f is None: return
        st = s.st.copy(); st.add(c)
        g = check(s.at(st), *f)
        if g is not None: prove(s.ex, st, s.tags, name or "the answer is the right one", g)
    def ok_done(s):
        s.answers("Message", lambda s, m: s.ex.encode(s.st, m, s.S.strt) == s.ex.lit("Ok"), "the answer is the message Ok")
    def fails(s, kinds):
        T = s.ex.T
        et = payload(s.ex, s.rt, "Err")
        e = s.body
        gs = []
        for n, c in kinds.items():
            i = T.vidx(et, n)
            is_ = z3.BoolVal(e.var == i) if isinstance(e, Adt) else T.sort(et).recognizer(i)(e)
            gs.append(z3.And(is_, c))
        s.prove("it fails only for a documented reason, with that error", z3.Or(gs))
        s.kept()
    def isval(s, x, n): return s.V.isv(x, n)
    def enc(s, v, ty): return s.ex.encode(s.st, v, ty)
    def is_vec(s): return s.isval(s.valt(), "Vector")
    def is_map(s): return s.isval(s.valt(), "Map")
    def seq(s, el): return Seq(s.V, s.ex, s.st, z3.simplify(s.V.vs.accessor(s.ex.T.vidx(s.V.val, "Vector"), 0)(s.S.E.value(el))))
    def tab(s, el): return Tab(s.V, s.ex, s.st, z3.simplify(s.V.vs.accessor(s.ex.T.vidx(s.V.val, "Map"), 0)(s.S.E.value(el))))
    def keeps_rest(s):
        a, b = s.old(), s.new()
        E = s.S.E
        s.prove("the entry keeps its expiry", E.exp(a) == E.exp(b), ["C08", "C04", "C01"])
        s.prove("the entry keeps its key", E.key(a) == E.key(b))
        s.frame()


def ctsame(V, ex, st, a, b, ty): return ex.encode(st, a, ty) == ex.encode(st, b, ty)


POST = {}
def stmt(name):
    def d(fn): POST[name] = fn; return fn
    return d


def good(o): return o.var == "Ok"


@stmt("Shutdown")
def _(o):
    if not good(o): return o.prove("a shutdown statement does not fail", z3.BoolVal(False))
    o.answers("ShuttingDown"); o.kept()


@stmt("Null")
def _(o):
    if not good(o): return o.prove("a null statement does not fail", z3.BoolVal(False))
    o.answers("Null"); o.kept()


@stmt("Get")
def _(o):
    if not good(o): return o.fails({"KeyError": o.absent()})
    o.prove("it succeeds only for a live entry", o.present())
    o.answers("Value", lambda s, v: s.enc(v, s.V.val) == s.valt(), "it answers the stored value"); o.kept()


@stmt("Exists")
def _(o):
    if not good(o): return o.prove("it does not fail", z3.BoolVal(False))
    o.answers("Bool", lambda s, b: z3.And(z3.Implies(b, s.present()), z3.Implies(z3.Not(b), s.absent())), "it answers whether the entry exists"); o.kept()


@stmt("GetIfExists")
def _(o):
    if not good(o): return o.prove("it does not fail", z3.BoolVal(False))
    o.answers("Value", lambda s, v: z3.Or(z3.And(s.present(), s.enc(v, s.V.val) == s.valt()), z3.And(s.absent(), s.V.isv(s.enc(v, s.V.val), "Null"))),
              "it answers the stored value, or null if there is none"); o.kept()


@stmt("GetLifetime")
def _(o):
    o.tags = ["C09", "C08"]
    if not good(o):
        o.prove("it fails only for a missing or expired entry", o.absent())
        return o.kept()
    o.prove("it succeeds only for a live entry", o.present())
    def chk(s, v):
        T = s.ex.T
        ot = T.fields(payload(s.ex, s.rt, "Ok"), T.vidx(payload(s.ex, s.rt, "Ok"), "Expiration"))[0]
        x = s.enc(v, ot)
        so, sm = T.sort(ot), T.vidx(ot, "Some")
        E = s.S.E
        left = so.accessor(sm, 0)(x)
        return z3.If(E.hasexp(s.old()), z3.And(so.recognizer(sm)(x), s.any(lambda t: z3.And(t <= E.expt(s.old()), left == (E.expt(s.old()) - t) / 10**9))), z3.Not(so.recognizer(sm)(x)))
    o.answers("Expiration", chk, "it answers the whole seconds left, or none without an expiry"); o.kept()


@stmt("ExpireKeys")
def _(o):
    o.tags = ["C08", "C20"]
    if not good(o): return o.prove("it does not fail", z3.BoolVal(False))
    q = fresh(StrS, "anykey")
    d = o.st.ghost.get("dropped", ())
    same = z3.Select(o.m0.arr, q) == z3.Select(o.m.arr, q)
    o.prove("it removes only what the passes removed", z3.Or([same] + [z3.And(q == x, z3.Not(o.S.has(o.m, q))) for x in d]))
    o.prove("it runs a pass", z3.BoolVal(any(e == ("storage", "invalidate_expired_keys") for e in o.st.events)))
    o.answers("Size", lambda s, n: n == len(d), "it answers the number of entries removed")


def lifetime(o, lt, lt_ty):
    """(has lifetime, seconds)"""
    T = o.ex.T
    x = o.enc(lt, lt_ty)
    s = T.sort(lt_ty)
    sm = T.vidx(lt_ty, "Some")
    return s.recognizer(sm)(x), s.accessor(sm, 0)(x)


def too_large(o, secs): return o.any(lambda t: t + secs * 10**9 > MAXT)


def written(o, lt, ty, val=None):
    """the entry now holds val (or its old value) and the expiry the lifetime asks for"""
    E = o.S.E
    o.stored()
    n = o.new()
    if val is not None:
        o.prove("the entry holds the value written", E.value(n) == o.enc(val, o.V.val))
        o.prove("the entry holds its key", E.key(n) == o.k)
    else:
        o.prove("the entry keeps its value and key", z3.And(E.value(n) == E.value(o.old()), E.key(n) == E.key(o.old())))
    has, secs = lifetime(o, lt, ty)
    o.prove("the expiry lies exactly the lifetime after a clock reading; without a lifetime there is none",
            z3.If(has, z3.And(E.hasexp(n), o.any(lambda t: E.expt(n) == t + secs * 10**9)), z3.Not(E.hasexp(n))), ["C09"])
    o.frame()


def refused(o, lt, ty, kinds):
    """an error: for a lifetime too large (any error), or for one of the kinds"""
    T = o.ex.T
    has, secs = lifetime(o, lt, ty)
    et = payload(o.ex, o.rt, "Err")
    e = o.body
    gs = [z3.And(has, too_large(o, secs))]
    for n, c in kinds.items():
        i = T.vidx(et, n)
        gs.append(z3.And(z3.BoolVal(e.var == i) if isinstance(e, Adt) else T.sort(et).recognizer(i)(e), c))
    o.prove("it fails only for a lifetime too large to represent or the operation's own reason", z3.Or(gs), ["C08", "C09"])
    o.tags = ["C08", "C09"]
    o.kept()


def representable(o, lt, ty):
    has, secs = lifetime(o, lt, ty)
    o.prove("a lifetime too large to represent is rejected", z3.Or(z3.Not(has), o.any(lambda t: t + secs * 10**9 <= MAXT)), ["C09"])


@stmt("Set")
def _(o):
    lt, ty = o.f[2], o.fty[2]
    if not good(o): return refused(o, lt, ty, {})
    representable(o, lt, ty)
    written(o, lt, ty, o.f[1]); o.ok_done()


@stmt("SetIfNotExists")
def _(o):
    lt, ty = o.f[2], o.fty[2]
    if not good(o): return refused(o, lt, ty, {})
    representable(o, lt, ty)
    def chk(s, b):
        def yes(s):
            s.prove("it sets only when the entry is missing or expired", s.absent())
            written(s, lt, ty, s.f[1])
        def no(s):
            s.prove("it refuses only for a live entry", s.present())
            s.kept()
        s.case(b, yes); s.case(z3.Not(b), no)
    o.answers("Bool", chk)


@stmt("Update")
def _(o):
    lt, ty = o.f[2], o.fty[2]
    if not good(o): return refused(o, lt, ty, {"KeyError": o.absent()})
    representable(o, lt, ty)
    o.prove("it succeeds only for a live entry", o.present())
    written(o, lt, ty, o.f[1]); o.ok_done()


@stmt("UpdateLifetime")
def _(o):
    lt, ty = o.f[1], o.fty[1]
    if not good(o): return refused(o, lt, ty, {"KeyError": o.absent()})
    representable(o, lt, ty)
    o.prove("it succeeds only for a live entry", o.present())
    written(o, lt, ty); o.ok_done()


@stmt("Delete")
def _(o):
    if not good(o): return o.prove("it does not fail", z3.BoolVal(False))
    def chk(s, b):
        def yes(s):
            s.prove("it reports a deletion only for a live entry", s.present()); s.gone()
        def no(s):
            s.prove("it reports nothing deleted only when the entry is missing or expired", s.absent()); s.kept()
        s.case(b, yes); s.case(z3.Not(b), no)
    o.answers("Bool", chk)


@stmt("ValueType")
def _(o):
    if not good(o): return o.fails({"KeyError": o.absent()})
    o.prove("it succeeds only for a live entry", o.present())
    def chk(s, v):
        T = s.ex.T
        rt = payload(s.ex, s.rt, "Ok")
        vt = T.fields(rt, T.vidx(rt, "ValueType"))[0]
        x = s.enc(v, vt)
        vs = T.sort(vt)
        is_ = lambda n: vs.recognizer(T.vidx(vt, n))(x)
        acc = lambda n, j: vs.accessor(T.vidx(vt, n), j)(x)
        val = s.valt()
        gs = [s.isval(val, n) == is_(n) for n in ("Null", "Bool", "Int", "Float", "String", "Vector", "Map")]
        sq, tb = s.seq(s.old()), s.tab(s.old())
        gs.append(z3.Implies(s.isval(val, "Vector"), acc("Vector", 0) == s.enc(sq.ct, s.V.ct)))
        gs.append(z3.Implies(s.isval(val, "Map"), z3.And(acc("Map", 0) == s.enc(tb.kt, s.V.kt), acc("Map", 1) == s.enc(tb.ct, s.V.ct))))
        return z3.And(gs)
    o.answers("ValueType", chk, "it answers the type of the stored value, with its element types"); o.kept()


def coll(o, kinds, what):
    """errors of a collection statement"""
    k = {"KeyError": o.absent(), "TypeError": z3.And(o.present(), z3.Not(o.is_vec() if what == "Vector" else o.is_map()))}
    for n, c in kinds.items():
        c = z3.And(o.present(), o.is_vec() if what == "Vector" else o.is_map(), c)
        k[n] = z3.Or(k[n], c) if n in k else c
    o.fails(k)


def live(o, what):
    o.prove("it succeeds only for a live %s" % what.lower(), z3.And(o.present(), o.is_vec() if what == "Vector" else o.is_map()))
    st = o.st.copy(); st.add(o.is_vec() if what == "Vector" else o.is_map())
    return o.at(st)


def upd(o, what):
    o.stored()
    o.prove("the entry still holds a %s" % what.lower(), o.isval(o.S.E.value(o.new()), what))
    o.keeps_rest()
    A, B = (o.seq(o.old()), o.seq(o.new())) if what == "Vector" else (o.tab(o.old()), o.tab(o.new()))
    o.prove("the declared types are kept", z3.And([ctsame(o.V, o.ex, o.st, A.ct, B.ct, o.V.ct)] + ([ctsame(o.V, o.ex, o.st, A.kt, B.kt, o.V.kt)] if what == "Map" else [])))
    return A, B


@stmt("VectorGet")
def _(o):
    i = o.f[1]
    if not good(o):
        return coll(o, {"IndexError": z3.Not(z3.And(i >= 0, i < o.seq(o.old()).len))}, "Vector")
    o = live(o, "Vector")
    A = o.seq(o.old())
    o.prove("it succeeds only for an index in range", z3.And(i >= 0, i < A.len))
    o.answers("Value", lambda s, v: s.enc(v, s.V.val) == A.at(i), "it answers the element at the index"); o.kept()


@stmt("VectorLength")
def _(o):
    if not good(o): return coll(o, {}, "Vector")
    o = live(o, "Vector")
    o.answers("Size", lambda s, n: n == s.seq(s.old()).len, "it answers the length"); o.kept()


@stmt("VectorAppend")
def _(o):
    x = o.enc(o.f[1], o.V.val)
    A = o.seq(o.old())
    if not good(o): return coll(o, {"TypeError": z3.Not(o.V.match(x, A.ct))}, "Vector")
    o = live(o, "Vector")
    o.prove("it succeeds only for a value of the declared type", o.V.match(x, A.ct))
    A, B = upd(o, "Vector")
    j = fresh(IntS, "anyidx")
    o.prove("the vector gained exactly the value at its end", z3.And(B.len == A.len + 1, B.at(A.len) == x, z3.Implies(z3.And(j >= 0, j < A.len), A.at(j) == B.at(j))))
    o.ok_done()


@stmt("VectorPop")
def _(o):
    if not good(o): return coll(o, {}, "Vector")
    o = live(o, "Vector")
    A = o.seq(o.old())
    def empty(s):
        s.answers("Value", lambda s, v: s.V.isv(s.enc(v, s.V.val), "Null"), "pop on an empty vector answers null")
        A, B = upd(s, "Vector")
        s.prove("an empty vector stays empty", B.len == 0)
    def full(s):
        s.answers("Value", lambda s, v: s.enc(v, s.V.val) == s.seq(s.old()).at(s.seq(s.old()).len - 1), "pop answers the last element")
        A, B = upd(s, "Vector")
        j = fresh(IntS, "anyidx")
        s.prove("the vector lost exactly its last element", z3.And(B.len == A.len - 1, z3.Implies(z3.And(j >= 0, j < B.len), A.at(j) == B.at(j))))
    o.case(A.len <= 0, empty); o.case(A.len > 0, full)


@stmt("VectorSet")
def _(o):
    i, x = o.f[1], o.enc(o.f[2], o.V.val)
    A = o.seq(o.old())
    if not good(o): return coll(o, {"TypeError": z3.Not(o.V.match(x, A.ct)), "IndexError": z3.Not(z3.And(i >= 0, i < A.len))}, "Vector")
    o = live(o, "Vector")
    o.prove("it succeeds only for an index in range and a value of the declared type", z3.And(i >= 0, i < A.len, o.V.match(x, A.ct)))
    A, B = upd(o, "Vector")
    j = fresh(IntS, "anyidx")
    o.prove("exactly the element at the index changed", z3.And(B.len == A.len, B.at(i) == x, z3.Implies(z3.And(j >= 0, j < A.len, j != i), A.at(j) == B.at(j))))
    o.ok_done()


@stmt("MapGet")
def _(o):
    k = o.enc(o.f[1], o.V.val)
    A = o.tab(o.old())
    if not good(o): return coll(o, {"TypeError": z3.Not(o.V.kmatch(k, A.kt)), "IndexError": z3.Not(A.has(k))}, "Map")
    o = live(o, "Map")
    o.prove("it succeeds only for a key in the map", z3.And(o.V.kmatch(k, A.kt), A.has(k)))
    o.answers("Value", lambda s, v: s.enc(v, s.V.val) == A.val(k), "it answers the value of the key"); o.kept()


@stmt("MapExists")
def _(o):
    k = o.enc(o.f[1], o.V.val)
    A = o.tab(o.old())
    if not good(o): return coll(o, {"TypeError": z3.Not(o.V.kmatch(k, A.kt))}, "Map")
    o = live(o, "Map")
    o.answers("Bool", lambda s, b: b == A.has(k), "it answers whether the key is in the map"); o.kept()


@stmt("MapLength")
def _(o):
    if not good(o): return coll(o, {}, "Map")
    o = live(o, "Map")
    o.answers("Size", lambda s, n: n == s.tab(s.old()).len, "it answers the number of keys"); o.kept()


@stmt("MapSet")
def _(o):
    k, x = o.enc(o.f[1], o.V.val), o.enc(o.f[2], o.V.val)
    A = o.tab(o.old())
    if not good(o): return coll(o, {"TypeError": z3.Not(z3.And(o.V.kmatch(k, A.kt), o.V.match(x, A.ct)))}, "Map")
    o = live(o, "Map")
    o.prove("it succeeds only for a key and a value of the declared types", z3.And(o.V.kmatch(k, A.kt), o.V.match(x, A.ct)))
    A, B = upd(o, "Map")
    j = fresh(o.V.vs, "anykey")
    o.prove("exactly the value of the key changed", z3.And(B.has(k), B.val(k) == x, z3.Implies(j != k, A.at(j) == B.at(j)), B.len == A.len + z3.If(A.has(k), 0, 1)))
    o.ok_done()


@stmt("MapDelete")
def _(o):
    k = o.enc(o.f[1], o.V.val)
    A = o.tab(o.old())
    if not good(o): return coll(o, {"TypeError": z3.Not(o.V.kmatch(k, A.kt))}, "Map")
    o = live(o, "Map")
    o.answers("Bool", lambda s, b: b == A.has(k), "it answers whether the key was in the map")
    A, B = upd(o, "Map")
    j = fresh(o.V.vs, "anykey")
    o.prove("exactly the key is gone", z3.And(z3.Not(B.has(k)), z3.Implies(j != k, A.at(j) == B.at(j)), B.len == A.len - z3.If(A.has(k), 1, 0)))


def key_obl(ex, st, k, m, line):
    if ex.T.name(m.kty) != "server::storage::types::StorageValue": return
    V = ex.vals
    c = z3.Or(V.isv(k, "Int"), V.isv(k, "String"))
    prove(ex, st, ["C08"], "no panic: a hashed key is an integer or a string", c, line)
    st.add(c)


TIMED = {"Set", "SetIfNotExists", "Update", "UpdateLifetime", "GetLifetime"}


def one(variant):
    def run(prog, ex, inst):
        T = ex.T
        S = ex.store = Store(ex)
        V = ex.vals = Vals(prog)
        ex.key_obligation = key_obl
        st = State()
        stt = tid(T, STMT)
        vi = T.vidx(stt, variant)
        fty = T.fields(stt, vi)
        f = [ex.sym(st, t, "stmt") for t in fty]
        me, place, m0 = interp_value(ex, st, S)
        satisfiable(ex, st, variant)
        rt = inst["locals"][0]
        ex.panic_tag = "no panic"
        def done(ex, s, ret):
            for s2, var, b in cases(ex, s, ret, rt):
                o = One(ex, s2, S, V, m0, place, ret, rt, f)
                o.var, o.body, o.fty = var, b[0], fty
                down = o.resp("ShuttingDown")[0] if var == "Ok" else z3.BoolVal(False)
                prove(ex, s2, ["C15"], "a statement answers that the service shuts down exactly when it is a shutdown", down if variant == "Shutdown" else z3.Not(down))
                POST[variant](o)
                if var == "Err":
                    et = payload(ex, rt, "Err")
                    i = T.vidx(et, "AuthorizationError")
                    e = b[0]
                    prove(ex, s2, ["C06", "C07"], "running a statement is never an authorisation error", z3.BoolVal(e.var != i) if isinstance(e, Adt) else z3.Not(T.sort(et).recognizer(i)(e)))
        start(ex, inst, st, [me, Adt(stt, vi, f)], done)
        for o in ex.obls:
            if getattr(o, "tags", None) is None: o.tags = ["C08"] + (["C09"] if variant in TIMED else [])
    CONTRACTS.append(Contract("statement " + variant, ["C08"] + (["C09"] if variant in TIMED else []) + (["C20"] if variant == "ExpireKeys" else []) + ["C06", "C07", "C15"], find_statement_fn, run, models=STORAGE))


for v in POST: one(v)


def run_all_variants(prog, ex, inst):
    have = [v["name"] for v in ex.T.variants(tid(ex.T, STMT))]
    ex.record(State(), "every kind of statement has a contract", set(have) == set(POST))


CONTRACTS.append(Contract("statement kinds", ["C08"], lambda p: None, run_all_variants))


# ---------------------------------------------------------------- C06, C07: whole requests
import itertools
from loops import Cand

MODIFIES = ["Delete", "Set", "SetIfNotExists", "Update", "UpdateLifetime", "VectorSet", "VectorAppend", "VectorPop", "MapSet", "MapDelete"]
LEVEL = "server::auth::AuthorizationLevel"
REQ = "server::analysis::interpreter::InterpreterRequest"
RES = "std::result::Result<%s, %s>" % (RESP, ERR)
SigmaS = z3.DeclareSort("Store")


class Spec:
    """what a request means: F (some statement from i on is forbidden) and Run (run from i)"""
    def __init__(self, ex, lev, arr, n):
        T = ex.T
        self.ex, self.arr, self.n, self.lev = ex, arr, n, lev
        self.stt, self.rt = tid(T, STMT), tid(T, RES)
        self.S, self.R = T.sort(self.stt), T.sort(self.rt)
        self.lt = tid(T, LEVEL)
        self.F = z3.Function("forbidden_from", IntS, BoolS)
        self.stepr = z3.Function("response_of", self.S, SigmaS, IntS, self.R)
        self.steps = z3.Function("store_after", self.S, SigmaS, IntS, SigmaS)
        a = (IntS, SigmaS, self.R, IntS)
        self.Rr, self.Rs, self.Rn = z3.Function("run_response", *a, self.R), z3.Function("run_store", *a, SigmaS), z3.Function("run_count", *a, IntS)
        self.rok, self.rerr = T.vidx(self.rt, "Ok"), T.vidx(self.rt, "Err")
        self.respt = T.fields(self.rt, self.rok)[0]
        self.errt = T.fields(self.rt, self.rerr)[0]
        self.RS, self.ES = T.sort(self.respt), T.sort(self.errt)
        self.null = self.wrap(self.RS.constructor(T.vidx(self.respt, "Null"))())
        self.sd = T.vidx(self.respt, "ShuttingDown")
        self.authe = T.vidx(self.errt, "AuthorizationError")
    def wrap(self, resp): return self.R.constructor(self.rok)(resp)
    def is_err(self, r): return self.R.recognizer(self.rerr)(r)
    def is_auth(self, r): return z3.And(self.is_err(r), self.ES.recognizer(self.authe)(self.R.accessor(self.rerr, 0)(r)))
    def is_sd(self, r): return z3.And(self.R.recognizer(self.rok)(r), self.RS.recognizer(self.sd)(self.R.accessor(self.rok, 0)(r)))
    def stops(self, r): return z3.Or(self.is_err(r), self.is_sd(r))
    def need(self, s):
        T = self.ex.T
        L = lambda n: self.lev == self.ex.encode(None, Adt(self.lt, T.vidx(self.lt, n), []), self.lt)
        admin, write = L("Admin"), L("Write")
        is_ = lambda n: self.S.recognizer(T.vidx(self.stt, n))(s)
        return z3.Or(z3.And(is_("Shutdown"), z3.Not(admin)), z3.And(z3.Or([is_(n) for n in MODIFIES]), z3.Not(admin), z3.Not(write)))
    def unfoldF(self, i):
        return z3.And(z3.Implies(z3.And(i >= 0, i < self.n), self.F(i) == z3.Or(self.need(z3.Select(self.arr, i)), self.F(i + 1))), z3.Implies(i >= self.n, z3.Not(self.F(i))))
    def unfoldRun(self, i, s, r, k):
        x = z3.Select(self.arr, i)
        r2, s2 = self.stepr(x, s, k), self.steps(x, s, k)
        gs = []
        for f, j in ((self.Rr, 0), (self.Rs, 1), (self.Rn, 2)):
            end, stop = (r, s, k)[j], (r2, s2, k + 1)[j]
            gs.append(f(i, s, r, k) == z3.If(i >= self.n, end, z3.If(self.stops(r2), stop, f(i + 1, s2, r2, k + 1))))
        return z3.Implies(i >= 0, z3.And(gs))


def find_interpret(p): return exact("server::analysis::interpreter::Interpreter::<%s>::interpret" % HMS)(p)


def m_process(ex, st, a, cx):
    """the contract of running one statement, as far as C06 and C07 need it: any response but an
    authorisation error, any effect"""
    P = ex.rspec
    ex.contract_calls.add(cx.name)
    x = ex.encode(st, deep(ex, st, a[1]), P.stt)
    s, k = st.ghost["g:store"], st.ghost["g:n"]
    r = P.stepr(x, s, k)
    st.add(z3.Not(P.is_auth(r)))
    st.ghost["g:store"] = P.steps(x, s, k)
    st.ghost["g:n"] = simp(k + 1)
    return ex.decode(st, r, P.rt)


def as_result(ex, S, l, P):
    """the leaf as the response so far"""
    v = S[l]
    name = ex.T.name(l.tid) if l.tid is not None else ""
    if name == RES: return ex.encode(S.st, v, l.tid)
    if name == RESP: return P.wrap(ex.encode(S.st, v, l.tid))
    if name.startswith("std::option::Option<") and name[20:-1] in (RES, RESP):
        t = ex.encode(S.st, v, l.tid)
        o = ex.T.sort(l.tid)
        i = ex.T.vidx(l.tid, "Some")
        p = o.accessor(i, 0)(t)
        return z3.If(o.recognizer(i)(t), p if name[20:-1] == RES else P.wrap(p), P.null)
    return None


def request_loops(ex, L):
    P = ex.rspec
    out = []
    # authorisation: what remains to be judged decides
    for l in L.ints:
        L.facts.append(lambda S, l=l: P.unfoldF(S[l]))
        out.append(Cand("sim F", lambda S, l=l: P.F(iv(0)) == P.F(S[l])))
        out.append(Cand("sim F within", lambda S, l=l: z3.And(S[l] >= 0, S[l] <= P.n)))
        for b in L.bools:
            out.append(Cand("sim F b", lambda S, l=l, b=b: P.F(iv(0)) == z3.And(S[b], P.F(S[l]))))
            out.append(Cand("sim F or b", lambda S, l=l, b=b: P.F(iv(0)) == z3.Or(S[b], P.F(S[l]))))
            out.append(Cand("sim F not b", lambda S, l=l, b=b: P.F(iv(0)) == z3.Or(z3.Not(S[b]), P.F(S[l]))))
    # execution: running the rest from here gives the result of the whole
    gs = {l.key[1]: l for l in L.leaves if l.key[0] == "g"}
    if "g:n" in gs:
        sg = lambda S: S[gs["g:store"]] if "g:store" in gs else S.st.ghost["g:store"]
        kn = lambda S: S[gs["g:n"]]
        lasts = [(lambda S: P.null)]
        for l in L.vals:
            if l.tid is not None and RESP in ex.T.name(l.tid): lasts.append(lambda S, l=l: as_result(ex, S, l, P))
        for l in L.ints:
            if l.key[0] == "g": continue
            for r in lasts:
                def f(S, l=l, r=r):
                    x = r(S)
                    if x is None: return None
                    a = (S[l], sg(S), x, kn(S))
                    z = (iv(0), ex.sigma0, P.null, iv(0))
                    return z3.And(P.Rr(*z) == P.Rr(*a), P.Rs(*z) == P.Rs(*a), P.Rn(*z) == P.Rn(*a))
                def u(S, l=l, r=r):
                    x = r(S)
                    return z3.BoolVal(True) if x is None else P.unfoldRun(S[l], sg(S), x, kn(S))
                L.facts.append(u)
                out.append(Cand("sim run", f))
    return out


def request(prog, ex, inst):
    T = ex.T
    p = prog
    fn = find_statement_fn(p)
    ex.models.insert(0, (re.compile(re.escape(fn["name"])), m_process))
    ex.loop_mode = lambda ex, st, fr, header: "inv"
    ex.loop_spec = request_loops
    st = State()
    it, rq, stt, lt = tid(T, INT), tid(T, REQ), tid(T, STMT), tid(T, LEVEL)
    v = ex.sym_vec(st, stt, "statements")
    lev = ex.sym(st, lt, "level")
    levt = ex.encode(st, lev, lt)
    P = ex.rspec = Spec(ex, levt, v.arr, v.len)
    ex.sigma0 = fresh(SigmaS, "store")
    st.ghost["g:store"], st.ghost["g:n"] = ex.sigma0, iv(0)
    me = ex.ref_to(st, Adt(it, 0, [Opq("store") for _ in T.fields(it)]))
    fs = []
    for i, f in enumerate(T.fields(rq)):
        n = T.name(f)
        fs.append(v if n == "std::vec::Vec<%s>" % STMT else lev if n == LEVEL else ex.sym(st, f, "req"))
    if sum(x is v for x in fs) != 1 or sum(x is lev for x in fs) != 1: raise Lost("fields of the request")
    z = (iv(0), ex.sigma0, P.null, iv(0))
    st.add(P.unfoldF(iv(0))); st.add(P.unfoldRun(*z))
    satisfiable(ex, st, "interpret")
    ex.panic_tag = "no panic"
    rt = inst["locals"][0]
    def done(ex, s, ret):
        r = ex.encode(s, ret, rt)
        F = P.F(iv(0))
        s1 = s.copy(); s1.add(F)
        if ex.feasible(s1):
            prove(ex, s1, ["C06"], "a request with a forbidden statement is rejected with an authorisation error", P.is_auth(r))
            prove(ex, s1, ["C15"], "a request that must be rejected does not shut the service down", z3.Not(P.is_sd(r)))
            prove(ex, s1, ["C06"], "a rejected request runs no statement and leaves the store unchanged", z3.And(s1.ghost["g:n"] == 0, s1.ghost["g:store"] == ex.sigma0))
        s2 = s.copy(); s2.add(z3.Not(F))
        if ex.feasible(s2):
            prove(ex, s2, ["C06", "C20"], "a permitted request is not rejected as unauthorised", z3.Not(P.is_auth(r)))
            prove(ex, s2, ["C15"], "a permitted request answers that the service shuts down exactly when a shutdown was executed", P.is_sd(r) == P.is_sd(P.Rr(*z)))
            prove(ex, s2, ["C07", "C19", "C20"], "the statements run in order, each once, up to the first failure or shutdown", z3.And(s2.ghost["g:n"] == P.Rn(*z), s2.ghost["g:store"] == P.Rs(*z)))
            prove(ex, s2, ["C07", "C19"], "the response is that of the last statement executed, or empty", r == P.Rr(*z))
    start(ex, inst, st, [me, Adt(rq, 0, fs)], done)
    for o in ex.obls:
        if getattr(o, "tags", None) is None: o.tags = ["C06", "C07"]


CONTRACTS.append(Contract("interpret a request", ["C06", "C07", "C15", "C19", "C20"], find_interpret, request))
