"""Contracts of the parser (C12, C13).

The grammar is a specification function over the sequence of tokens: SKIP (semicolons), one statement
from a position (Sok, Sval, Snext), vector and map literals (VL*, ML*, tail recursive), and the whole
query (P*, tail recursive).  `parse` is proved to return exactly what the grammar says.
Internal contracts (one statement, vector literal, map literal) are found by signature; a parser
without such functions is verified with them inlined.
"""
from engine import *
from models import deep
from loops import Cand, positions
from specs.interp import STMT, ERR, tid
from specs.values import Vals

PARSER = "server::analysis::parser::Parser"
ATOK = "server::analysis::tokens::AnnotatedToken"
TOK = "server::analysis::tokens::Token"
TY = "server::storage::types::"
SV = TY + "StorageValue"
CT, KT = TY + "CollectionType", TY + "KeyType"
RS = "std::result::Result<%s, %s>"
A_STMT = None


def arrs(T, t): return z3.ArraySort(IntS, T.sort(t))


class Gram:
    """the grammar over tokens arr[0..n)"""
    def __init__(self, prog, ex, arr, n):
        T = self.T = ex.T
        self.ex, self.arr, self.n = ex, arr, n
        self.at, self.tt, self.stt, self.vt = tid(T, ATOK), tid(T, TOK), tid(T, STMT), tid(T, SV)
        self.V = Vals(prog)
        self.AS, self.TS, self.SS, self.VS = T.sort(self.at), T.sort(self.tt), T.sort(self.stt), T.sort(self.vt)
        f = [i for i, x in enumerate(T.fields(self.at)) if x == self.tt]
        if len(f) != 1: raise Lost("the token of an annotated token")
        self.tf = f[0]
        self.ctt, self.ktt = tid(T, CT), tid(T, KT)
        self.CS, self.KS = T.sort(self.ctt), T.sort(self.ktt)
        AV = arrs(T, self.vt)
        o = T.opt(self.vt)
        self.AM = z3.ArraySort(self.VS, o[0])
        self.o = o
        F = z3.Function
        self.SKIP = F("skip_semicolons", IntS, IntS)
        self.Sok, self.Sval, self.Snext = F("statement_ok", IntS, BoolS), F("statement_at", IntS, self.SS), F("statement_end", IntS, IntS)
        self.VL = [F("vec_" + x, IntS, self.CS, IntS, AV, s) for x, s in (("ok", BoolS), ("end", IntS), ("len", IntS), ("arr", AV))]
        self.ML = [F("map_" + x, IntS, self.KS, self.CS, IntS, self.AM, s) for x, s in (("ok", BoolS), ("end", IntS), ("len", IntS), ("arr", self.AM))]
        AS = arrs(T, self.stt)
        self.P = [F("parse_" + x, IntS, IntS, AS, s) for x, s in (("ok", BoolS), ("len", IntS), ("arr", AS))]
        self.vempty, self.mempty = T.empty(self.vt), z3.K(self.VS, o[1])
        self.inline = False

    # tokens
    def tok(self, i): return simp(self.AS.accessor(0, self.tf)(z3.Select(self.arr, i)))
    def tis(self, i, name): return z3.And(i < self.n, self.TS.recognizer(self.T.vidx(self.tt, name))(self.tok(i)))
    def tval(self, i, name): return self.TS.accessor(self.T.vidx(self.tt, name), 0)(self.tok(i))
    def val(self, name, x): return self.VS.constructor(self.T.vidx(self.vt, name))(x)
    def null(self): return self.VS.constructor(self.T.vidx(self.vt, "Null"))()
    def stmt(self, name, *a): return self.SS.constructor(self.T.vidx(self.stt, name))(*a)
    def ct(self, name): return self.CS.constructor(self.T.vidx(self.ctt, name))()
    def kt(self, name): return self.KS.constructor(self.T.vidx(self.ktt, name))()
    SC = [("Bool", "Bool"), ("Integer", "Int"), ("Float", "Float"), ("StringValue", "String")]
    TYPES = [("BoolType", "Bool"), ("IntType", "Int"), ("FloatType", "Float"), ("StringType", "String")]
    def scalar(self, i):
        """(ok, value)"""
        v = self.val("String", self.tval(i, "StringValue"))
        for t, s in self.SC[:3]: v = z3.If(self.tis(i, t), self.val(s, self.tval(i, t)), v)
        return z3.Or([self.tis(i, t) for t, _ in self.SC]), v
    def key(self, i): return z3.Or(self.tis(i, "Integer"), self.tis(i, "StringValue")), z3.If(self.tis(i, "Integer"), self.val("Int", self.tval(i, "Integer")), self.val("String", self.tval(i, "StringValue")))
    def coll(self, i):
        c = self.ct("String")
        for t, s in self.TYPES[:3]: c = z3.If(self.tis(i, t), self.ct(s), c)
        return z3.Or([self.tis(i, t) for t, _ in self.TYPES]), c
    def ktype(self, i): return z3.Or(self.tis(i, "IntType"), self.tis(i, "StringType")), z3.If(self.tis(i, "IntType"), self.kt("Int"), self.kt("String"))
    def end(self, i): return z3.Or(i >= self.n, self.tis(i, "Semicolon"))
    def name(self, i): return self.tis(i, "Identifier"), self.tval(i, "Identifier")
    # collection values
    def vecval(self, c, ln, arr):
        T = self.T
        v = self.V
        fs = [None, None]
        s = T.sort(v.vec)
        mk = T.vec_fns(self.vt)[2]
        fs[v.vv], fs[v.vc] = mk(ln, arr), c
        return self.val("Vector", s.constructor(0)(*fs))
    def mapval(self, k, c, ln, arr):
        T = self.T
        v = self.V
        s = T.sort(v.map)
        fs = [None, None, None]
        fs[v.mm], fs[v.mk], fs[v.mc] = T.map_fns(self.vt, self.vt)[2](ln, arr), k, c
        return self.val("Map", s.constructor(0)(*fs))
    # unfolding the recursive functions
    def unfold_skip(self, i):
        return z3.And(z3.Implies(z3.Not(self.tis(i, "Semicolon")), self.SKIP(i) == i), z3.Implies(self.tis(i, "Semicolon"), self.SKIP(i) == self.SKIP(i + 1)))
    def unfold_vl(self, i, c, ln, arr):
        ok, v = self.scalar(i)
        good = z3.And(ok, self.V.match(v, c))
        l2, a2 = ln + 1, z3.Store(arr, ln, v)
        stop, go = self.tis(i + 1, "RightBracket"), self.tis(i + 1, "Comma")
        r = [f(i, c, ln, arr) for f in self.VL]
        n = [f(i + 2, c, l2, a2) for f in self.VL]
        return z3.And(r[0] == z3.And(good, z3.Or(stop, z3.And(go, n[0]))),
                      z3.Implies(z3.And(good, stop), z3.And(r[1] == i + 2, r[2] == l2, r[3] == a2)),
                      z3.Implies(z3.And(good, go), z3.And([x == y for x, y in zip(r[1:], n[1:])])))
    def insert(self, ln, arr, k, v):
        return z3.If(self.o[3](z3.Select(arr, k)), ln, ln + 1), z3.Store(arr, k, self.o[2](v))
    def unfold_ml(self, i, k, c, ln, arr):
        ok1, kv = self.scalar(i)
        ok2, v = self.scalar(i + 2)
        good = z3.And(ok1, self.V.kmatch(kv, k), self.tis(i + 1, "Colon"), ok2, self.V.match(v, c))
        l2, a2 = self.insert(ln, arr, kv, v)
        stop, go = self.tis(i + 3, "RightCurlyBracket"), self.tis(i + 3, "Comma")
        r = [f(i, k, c, ln, arr) for f in self.ML]
        n = [f(i + 4, k, c, l2, a2) for f in self.ML]
        return z3.And(r[0] == z3.And(good, z3.Or(stop, z3.And(go, n[0]))),
                      z3.Implies(z3.And(good, stop), z3.And(r[1] == i + 4, r[2] == l2, r[3] == a2)),
                      z3.Implies(z3.And(good, go), z3.And([x == y for x, y in zip(r[1:], n[1:])])))
    def unfold_parse(self, i, ln, arr):
        j = self.SKIP(i)
        r = [f(i, ln, arr) for f in self.P]
        n = [f(self.Snext(j), ln + 1, z3.Store(arr, ln, self.Sval(j))) for f in self.P]
        return z3.And(r[0] == z3.Or(j >= self.n, z3.And(self.Sok(j), n[0])),
                      z3.Implies(j >= self.n, z3.And(r[1] == ln, r[2] == arr)),
                      z3.Implies(z3.And(j < self.n, self.Sok(j)), z3.And(r[1] == n[1], r[2] == n[2])))
    # literals from their opening bracket at position p: (ok, value, end)
    def vector(self, p, c):
        q = p + 1
        r = [f(q, c, iv(0), self.vempty) for f in self.VL]
        empty = self.tis(q, "RightBracket")
        return z3.Or(empty, r[0]), z3.If(empty, self.vecval(c, iv(0), self.vempty), self.vecval(c, r[2], r[3])), z3.If(empty, q + 1, r[1])
    def map(self, p, k, c):
        q = p + 1
        r = [f(q, k, c, iv(0), self.mempty) for f in self.ML]
        empty = self.tis(q, "RightCurlyBracket")
        return z3.Or(empty, r[0]), z3.If(empty, self.mapval(k, c, iv(0), self.mempty), self.mapval(k, c, r[2], r[3])), z3.If(empty, q + 1, r[1])
    def value(self, i):
        okc, c = self.coll(i)
        okc2, c2 = self.coll(i + 1)
        okk, k = self.ktype(i)
        oks, s = self.scalar(i)
        vo, vv, ve = self.vector(i + 1, c)
        mo, mv, me = self.map(i + 2, k, c2)
        lit = self.tis(i + 2, "LeftCurlyBracket")
        cases = [   # condition, ok, value, end
            (self.end(i), z3.BoolVal(True), self.null(), i),
            (z3.And(okc, self.end(i + 1)), z3.BoolVal(True), self.vecval(c, iv(0), self.vempty), i + 1),
            (z3.And(okc, okc2, lit), z3.And(okk, mo), mv, me),
            (z3.And(okc, okc2), okk, self.mapval(k, c2, iv(0), self.mempty), i + 2),
            (z3.And(okc, self.tis(i + 1, "LeftBracket")), vo, vv, ve),
            (okc, z3.BoolVal(False), self.null(), i),
        ]
        ok, v, e = oks, s, i + 1
        for g, a, b, d in reversed(cases): ok, v, e = z3.If(g, a, ok), z3.If(g, b, v), z3.If(g, d, e)
        return ok, v, e
    def lifetime(self, i):
        T = self.T
        lt = T.fields(self.stt, T.vidx(self.stt, "Set"))[2]
        L = T.sort(lt)
        none, some = L.constructor(T.vidx(lt, "None"))(), L.constructor(T.vidx(lt, "Some"))
        x = self.tval(i, "Integer")
        return z3.Or(self.end(i), z3.And(self.tis(i, "Integer"), x >= 0)), z3.If(self.end(i), none, some(x)), z3.If(self.end(i), i, i + 1)
    def index(self, i): return z3.And(self.tis(i, "Integer"), self.tval(i, "Integer") >= 0), self.tval(i, "Integer")
    IDENT = {"Delete": "Delete", "Exists": "Exists", "Get": "Get", "GetOrNone": "GetIfExists", "MapLength": "MapLength", "ValueType": "ValueType", "VectorLength": "VectorLength", "VectorPop": "VectorPop"}
    MAPK = {"MapDelete": "MapDelete", "MapExists": "MapExists", "MapGet": "MapGet"}
    VALUED = {"Set": "Set", "SetIfNotExists": "SetIfNotExists", "Update": "Update"}
    def statements(self, j):
        """[(keyword token, ok, statement, end)] for a statement whose keyword is at j"""
        k = j + 1
        no, nv = self.name(k)
        out = []
        for t, s in self.IDENT.items(): out.append((t, no, self.stmt(s, nv), k + 1))
        ko, kv = self.key(k + 1)
        for t, s in self.MAPK.items(): out.append((t, z3.And(no, ko), self.stmt(s, nv, kv), k + 2))
        so, sv = self.scalar(k + 2)
        out.append(("MapSet", z3.And(no, ko, so), self.stmt("MapSet", nv, kv, sv), k + 3))
        so, sv = self.scalar(k + 1)
        out.append(("VectorAppend", z3.And(no, so), self.stmt("VectorAppend", nv, sv), k + 2))
        io, ix = self.index(k + 1)
        out.append(("VectorGet", z3.And(no, io), self.stmt("VectorGet", nv, ix), k + 2))
        so, sv = self.scalar(k + 2)
        out.append(("VectorSet", z3.And(no, io, so), self.stmt("VectorSet", nv, ix, sv), k + 3))
        vo, vv, ve = self.value(k + 1)
        lo, lv, le = self.lifetime(ve)
        for t, s in self.VALUED.items(): out.append((t, z3.And(no, vo, lo), self.stmt(s, nv, vv, lv), le))
        lo, lv, le = self.lifetime(k + 1)
        out.append(("SetLifetime", z3.And(no, lo), self.stmt("UpdateLifetime", nv, lv), le))
        out.append(("Shutdown", z3.BoolVal(True), self.stmt("Shutdown"), k))
        return out
    KEYWORDS = list(IDENT) + list(MAPK) + list(VALUED) + ["MapSet", "VectorAppend", "VectorGet", "VectorSet", "SetLifetime", "Shutdown"]
    def define_statement(self, j, only=None):
        """what Sok, Sval, Snext mean at j (where the token at j is `only`, if given)"""
        ss = self.statements(j)
        if only is not None:
            ss = [x for x in ss if x[0] == only]
            if not ss: return z3.Not(self.Sok(j))
            _, ok, s, e = ss[0]
            return z3.And(self.Sok(j) == ok, z3.Implies(ok, z3.And(self.Sval(j) == s, self.Snext(j) == e)))
        return z3.And([self.Sok(j) == z3.Or([z3.And(self.tis(j, t), ok) for t, ok, _, _ in ss])] +
                      [z3.Implies(z3.And(self.tis(j, t), ok), z3.And(self.Sval(j) == s, self.Snext(j) == e)) for t, ok, s, e in ss])


# ---------------------------------------------------------------- the parser's state
class PState:
    def __init__(self, T):
        self.T = T
        self.pt = tid(T, PARSER)
        fs = T.fields(self.pt)
        v = [i for i, f in enumerate(fs) if T.name(f) == "std::vec::Vec<%s>" % ATOK]
        p = [i for i, f in enumerate(fs) if T.name(f) == "usize"]
        if len(v) != 1 or len(p) != 1: raise Lost("fields of the parser")
        self.v, self.p = v[0], p[0]


def by_signature(prog, args, ret):
    """the one method of Parser with this signature"""
    T = prog.T
    out = []
    for i in prog.crate.insts:
        if "blocks" not in i or not i["name"].startswith(PARSER + "::") or "{closure" in i["name"]: continue
        sig = [T.name(t) for t in i["locals"][:i["argc"] + 1]]
        if sig[0] == ret and sig[1:] == args: out.append(i)
    if len(out) != 1: raise Lost("%d functions %s -> %s" % (len(out), args, ret))
    return out[0]


ME = "&mut " + PARSER
def find_stmt(p): return by_signature(p, [ME], RS % ("std::option::Option<%s>" % STMT, ERR))
def find_vec(p): return by_signature(p, [ME, CT], RS % (SV, ERR))
def find_map(p): return by_signature(p, [ME, KT, CT], RS % (SV, ERR))
def optional(f, p):
    try: return f(p)
    except Lost: return None


def posof(ex, st, me, ps): return ex.read(st, Ref(me.cell, me.path + (("f", ps.p, ps.pt),)))
def setpos(ex, st, me, ps, x): ex.write(st, Ref(me.cell, me.path + (("f", ps.p, ps.pt),)), x)


def deref(ex, st, r):
    while True:
        v = ex.read(st, r)
        if not isinstance(v, Ref): return r
        r = v


def tokens_unchanged(ex, st, me, ps, G):
    v = ex.read(st, Ref(me.cell, me.path + (("f", ps.v, ps.pt),)))
    if not (isinstance(v, VecV) and v.arr.eq(G.arr) and v.len.eq(G.n)): raise Unsupported("the tokens change")


def error(ex, st, ety):
    return fresh(ex.T.sort(ety), "parse_error")


def callee(kind):
    """an internal function used through its contract"""
    def m(ex, st, a, cx):
        G, ps = ex.gram, ex.pstate
        me = deref(ex, st, a[0])
        tokens_unchanged(ex, st, me, ps, G)
        i = posof(ex, st, me, ps)
        ex.contract_calls.add(cx.name)
        okt, et = ex.T.fields(cx.dty, ex.T.vidx(cx.dty, "Ok"))[0], ex.T.fields(cx.dty, ex.T.vidx(cx.dty, "Err"))[0]
        ok_ = lambda v: Adt(cx.dty, ex.T.vidx(cx.dty, "Ok"), [v])
        def fail(s):
            q = fresh(IntS, "errpos")
            s.add(z3.And(q >= i, q <= G.n))
            setpos(ex, s, me, ps, q)
            return Adt(cx.dty, ex.T.vidx(cx.dty, "Err"), [error(ex, s, et)])
        if kind == "stmt":
            j = G.SKIP(i)
            st.add(G.unfold_skip(i)); st.add(j >= i)
            def none(s):
                s.add(j == G.n) if False else None
                s.add(z3.Implies(i <= G.n, j <= G.n))
                setpos(ex, s, me, ps, j)
                return ok_(Adt(okt, ex.T.vidx(okt, "None"), []))
            def some(s):
                q = G.Snext(j)
                s.add(z3.And(q > j, q <= G.n))
                setpos(ex, s, me, ps, q)
                return ok_(Adt(okt, ex.T.vidx(okt, "Some"), [ex.decode(s, G.Sval(j), G.stt)]))
            return [(j >= G.n, none), (z3.And(j < G.n, G.Sok(j)), some), (z3.And(j < G.n, z3.Not(G.Sok(j))), fail)]
        pre = z3.And(i >= 0, i < G.n)
        prove(ex, st, ["C12", "C13"], "precondition of %s" % cx.name.rsplit("::", 1)[1], pre, cx.line)
        enc = lambda x, t: ex.encode(st, x, t)
        good, val, end = G.vector(i, enc(a[1], G.ctt)) if kind == "vec" else G.map(i, enc(a[1], G.ktt), enc(a[2], G.ctt))
        def yes(s):
            s.add(z3.And(end > i, end <= G.n))
            setpos(ex, s, me, ps, end)
            return ok_(ex.decode(s, val, G.vt))
        return [(good, yes), (z3.Not(good), fail)]
    return m


def setup(prog, ex, use):
    """symbolic parser over arbitrary tokens; internal functions in `use` are taken through their contracts"""
    T = ex.T
    st = State()
    ps = ex.pstate = PState(T)
    v = ex.sym_vec(st, tid(T, ATOK), "tokens")
    G = ex.gram = Gram(prog, ex, v.arr, v.len)
    ex.vals = G.V
    ex.key_obligation = key_obl
    ex.loop_mode = lambda ex, st, fr, header: "inv"
    ex.loop_spec = loops_spec
    finders = {"stmt": find_stmt, "vec": find_vec, "map": find_map}
    ex.inlined_parts = set()
    for k in use:
        f = optional(finders[k], prog)
        if f is None: ex.inlined_parts.add(k); continue
        ex.models.insert(0, (re.compile(re.escape(f["name"])), callee(k)))
    ex.panic_tag = "no panic"
    return st, v, G, ps


def key_obl(ex, st, k, m, line):
    if ex.T.name(m.kty) != SV: return
    V = ex.vals
    c = z3.Or(V.isv(k, "Int"), V.isv(k, "String"))
    prove(ex, st, ["C12"], "no panic: a hashed key is an integer or a string", c, line)
    st.add(c)


def loops_spec(ex, L):
    G = ex.gram
    T = ex.T
    out = []
    e = L.entry
    for l in positions(L):
        if l.key[0] == "g": continue
        a = e[l]
        L.facts.append(lambda S, l=l: G.unfold_skip(S[l]))
        out.append(Cand("sim skip", lambda S, l=l, a=a: z3.And(S[l] >= a, G.SKIP(a) == G.SKIP(S[l]))))
        for v in L.vecs:
            n0, a0 = e[v].len, e[v].arr
            if T.name(v.tid) == STMT:
                z = (a, n0, a0)
                L.facts.append(lambda S, l=l, v=v: z3.And(G.unfold_skip(S[l]), G.unfold_parse(S[l], S[v].len, S[v].arr)))
                if "stmt" in ex.inlined_parts: L.facts.append(lambda S, l=l: G.define_statement(G.SKIP(S[l])))
                out.append(Cand("sim parse", lambda S, l=l, v=v, z=z: z3.And([f(S[l], S[v].len, S[v].arr) == f(*z) for f in G.P])))
            if T.name(v.tid) == SV:
                for c in ctypes(ex, L, G.CS):
                    z = (a, c, n0, a0)
                    L.facts.append(lambda S, l=l, v=v, c=c: G.unfold_vl(S[l], c, S[v].len, S[v].arr))
                    out.append(Cand("sim vec", lambda S, l=l, v=v, z=z, c=c: z3.And([f(S[l], c, S[v].len, S[v].arr) == f(*z) for f in G.VL])))
        for m in [x for x in L.leaves if x.kind == "map"]:
            n0, a0 = e[m].len, e[m].arr
            for c in ctypes(ex, L, G.CS):
                for k in ctypes(ex, L, G.KS):
                    z = (a, k, c, n0, a0)
                    L.facts.append(lambda S, l=l, m=m, c=c, k=k: G.unfold_ml(S[l], k, c, S[m].len, S[m].arr))
                    out.append(Cand("sim map", lambda S, l=l, m=m, z=z, c=c, k=k: z3.And([f(S[l], k, c, S[m].len, S[m].arr) == f(*z) for f in G.ML])))
    return out


def ctypes(ex, L, sort):
    """the collection (key) types at hand in the state"""
    out, seen = [], set()
    def add(t):
        if t.get_id() not in seen and len(out) < 4: seen.add(t.get_id()); out.append(t)
    def walk(v, d):
        if d > 5: return
        if is_t(v):
            if v.sort() == sort: add(v)
        elif isinstance(v, Adt):
            if v.ty is not None and ex.T.t[v.ty]["k"] == "adt":
                try:
                    if ex.T.sort(v.ty) == sort: add(ex.encode(L.st, v, v.ty)); return
                except Unsupported: pass
            for x in v.f: walk(x, d + 1)
    for c, v in L.st.cells.items(): walk(v, 0)
    return out


def parser_value(ex, st, ps, v, pos):
    T = ex.T
    fs = []
    for i, f in enumerate(T.fields(ps.pt)):
        fs.append(v if i == ps.v else pos if i == ps.p else ex.sym(st, f, "parser"))
    return ex.ref_to(st, Adt(ps.pt, 0, fs))


def frame(ex, s, me, ps, before, tags):
    now = ex.read(s, me)
    for i, f in enumerate(ex.T.fields(ps.pt)):
        if i in (ps.p,): continue
        a, b = before.f[i], now.f[i]
        if isinstance(a, VecV): ok = isinstance(b, VecV) and b.arr.eq(a.arr) and b.len.eq(a.len)
        else: ok = is_t(a) and is_t(b) and a.eq(b)
        if not ok: prove(ex, s, tags, "nothing but the position changes", ex.encode(s, a, f) == ex.encode(s, b, f))


def internal(kind, finder, only=None):
    def run(prog, ex, inst):
        st, v, G, ps = setup(prog, ex, [k for k in ("vec", "map") if kind == "stmt"])
        T = ex.T
        i = fresh(IntS, "pos")
        st.add(z3.And(i >= 0, i <= G.n) if kind == "stmt" else z3.And(i >= 0, i < G.n))
        me = parser_value(ex, st, ps, v, i)
        before = ex.read(st, me)
        args = [me] + [ex.sym(st, t, "type") for t in inst["locals"][2:inst["argc"] + 1]]
        rt = inst["locals"][0]
        okt = T.fields(rt, T.vidx(rt, "Ok"))[0]
        RT = T.sort(rt)
        okc, erc = T.vidx(rt, "Ok"), T.vidx(rt, "Err")
        enc = lambda x, t: ex.encode(st, x, t)
        if kind == "stmt":
            j = G.SKIP(i)
            st.add(G.unfold_skip(i)); st.add(G.define_statement(j, only))
            if only == "": st.add(z3.Or(j >= G.n, z3.And([z3.Not(G.tis(j, t)) for t in G.KEYWORDS])))
            else: st.add(G.tis(j, only))
        elif kind == "vec":
            good, val, end = G.vector(i, enc(args[1], G.ctt))
            st.add(G.unfold_vl(i + 1, enc(args[1], G.ctt), iv(0), G.vempty))
        else:
            good, val, end = G.map(i, enc(args[1], G.ktt), enc(args[2], G.ctt))
            st.add(G.unfold_ml(i + 1, enc(args[1], G.ktt), enc(args[2], G.ctt), iv(0), G.mempty))
        satisfiable(ex, st, kind)
        def done(ex, s, ret):
            r = ex.encode(s, ret, rt)
            p = posof(ex, s, me, ps)
            isok = RT.recognizer(okc)(r)
            body = RT.accessor(okc, 0)(r)
            frame(ex, s, me, ps, before, ["C13"])
            s.add(z3.BoolVal(True))
            if kind == "stmt":
                O = T.sort(okt)
                sm = T.vidx(okt, "Some")
                s.add(G.unfold_skip(p))
                prove(ex, s, ["C13"], "semicolons are skipped, the end of the query ends the parse", z3.Implies(j >= G.n, z3.And(isok, O.recognizer(T.vidx(okt, "None"))(body), p == j)))
                prove(ex, s, ["C13"], "a statement is accepted exactly when it fits the grammar", z3.Implies(j < G.n, isok == G.Sok(j)))
                prove(ex, s, ["C13"], "the statement is the one written", z3.Implies(z3.And(j < G.n, G.Sok(j)), z3.And(O.recognizer(sm)(body), O.accessor(sm, 0)(body) == G.Sval(j), p == G.Snext(j))))
                prove(ex, s, ["C12", "C13"], "the position moves forward", z3.And(j >= i, p >= i, z3.Implies(z3.And(isok, O.recognizer(sm)(body)), z3.And(p > j, p <= G.n)), z3.Implies(z3.Not(isok), p <= G.n), z3.Implies(j >= G.n, p <= G.n)))
            else:
                prove(ex, s, ["C13"], "a literal is accepted exactly when it fits the grammar", isok == good)
                prove(ex, s, ["C13"], "the literal holds exactly the listed elements", z3.Implies(good, z3.And(body == val, p == end)))
                prove(ex, s, ["C12", "C13"], "the position moves forward", z3.And(p >= i, p <= G.n, z3.Implies(good, p > i)))
        start(ex, inst, st, args, done)
        for o in ex.obls:
            if getattr(o, "tags", None) is None: o.tags = ["C12"]
    CONTRACTS.append(Contract({"stmt": "parse one statement: " + (only or "anything else"), "vec": "parse a vector literal", "map": "parse a map literal"}[kind], ["C12", "C13"], lambda p: optional(finder, p), skip_missing(run), internal=True))


def skip_missing(run):
    def r(prog, ex, inst):
        if inst is None: return
        run(prog, ex, inst)
    return r


for k, f in (("vec", find_vec), ("map", find_map)): internal(k, f)
for k in sorted(Gram.KEYWORDS, key=lambda k: k not in Gram.VALUED) + [""]: internal("stmt", find_stmt, k)


def parse_all(prog, ex, inst):
    T = ex.T
    new = exact(PARSER + "::new")(prog)
    st, v, G, ps = setup(prog, ex, ["stmt", "vec", "map"])
    rt = inst["locals"][0]
    okt = T.fields(rt, T.vidx(rt, "Ok"))[0]
    RT = T.sort(rt)
    okc = T.vidx(rt, "Ok")
    E = T.empty(G.stt)
    z = (iv(0), iv(0), E)
    st.add(G.unfold_skip(iv(0))); st.add(G.unfold_parse(*z))
    if "stmt" in ex.inlined_parts: st.add(G.define_statement(G.SKIP(iv(0))))
    satisfiable(ex, st, "parse")
    got = []
    start(ex, new, st, [v], lambda ex, s, ret: got.append((s, ret)))
    n = 0
    for s, ret in got:
        me = ex.ref_to(s, ret)
        def done(ex, s, ret):
            L = T.vec_fns(G.stt)
            r = ex.encode(s, ret, rt)
            isok = RT.recognizer(okc)(r)
            prove(ex, s, ["C13"], "a query is accepted exactly when every statement of it fits the grammar", isok == G.P[0](*z))
            b = ex.decode(s, RT.accessor(okc, 0)(r), okt)
            if isinstance(ret, Adt) and ret.var == okc: b = ret.f[0] if isinstance(ret.f[0], VecV) else ex.decode(s, ret.f[0], okt)
            k = fresh(IntS, "anyidx")
            prove(ex, s, ["C13"], "the statements are those written, in order", z3.Implies(G.P[0](*z), z3.And(b.len == G.P[1](*z), z3.Implies(z3.And(k >= 0, k < b.len), z3.Select(b.arr, k) == z3.Select(G.P[2](*z), k)))))
        start(ex, inst, s, [me], done)
    for o in ex.obls:
        if getattr(o, "tags", None) is None: o.tags = ["C12"]


CONTRACTS.append(Contract("parse a query", ["C12", "C13"], exact(PARSER + "::parse"), parse_all))
