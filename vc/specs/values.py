"""Contracts of StorageVector, StorageMap, StorageValue (C05) and of the derived Clone / PartialEq impls.

Value invariant: every element of a vector (every key and value of a map) has the declared type.
"""
from engine import *
from models import deep
from specs.storage import cases, err_kind

TY = "server::storage::types::"
VEC, MAP = TY + "StorageVector::", TY + "StorageMap::"


class Vals:
    """terms over StorageValue / StorageVector / StorageMap / CollectionType / KeyType"""
    def __init__(self, prog):
        T = self.T = prog.T
        by = {}
        for i, t in enumerate(T.t): by.setdefault(t["name"], i)
        try:
            self.val, self.vec, self.map = by[TY + "StorageValue"], by[TY + "StorageVector"], by[TY + "StorageMap"]
            self.ct, self.kt = by[TY + "CollectionType"], by[TY + "KeyType"]
        except KeyError as e: raise Lost("type %s" % e)
        f = T.fields(self.vec)
        self.vv = [i for i, x in enumerate(f) if T.kind(x) == "vec"][0]
        self.vc = T.fidx(self.vec, "collection_type")
        f = T.fields(self.map)
        self.mm = [i for i, x in enumerate(f) if T.kind(x) == "hmap"][0]
        self.mk, self.mc = T.fidx(self.map, "key_type"), T.fidx(self.map, "collection_type")
        self.vs = T.sort(self.val)

    def isv(self, x, name): return self.vs.recognizer(self.T.vidx(self.val, name))(x)
    def ctis(self, c, name):
        i = self.T.vidx(self.ct, name)
        if isinstance(c, Adt): return z3.BoolVal(c.var == i)
        return self.T.sort(self.ct).recognizer(i)(c)
    def ktis(self, c, name):
        i = self.T.vidx(self.kt, name)
        if isinstance(c, Adt): return z3.BoolVal(c.var == i)
        return self.T.sort(self.kt).recognizer(i)(c)

    def match(self, x, c):
        return z3.And([z3.Implies(self.ctis(c, n), self.isv(x, n)) for n in ("Bool", "String", "Int", "Float")])
    def kmatch(self, x, c):
        return z3.And([z3.Implies(self.ktis(c, n), self.isv(x, n)) for n in ("String", "Int")])


class Seq:
    def __init__(self, V, ex, st, v):
        v = deep(ex, st, v)
        if is_t(v): v = ex.decode(st, v, V.vec)
        self.V, self.v, self.ct = V, v.f[V.vv], v.f[V.vc]
        self.len = self.v.len
    def at(self, i): return z3.Select(self.v.arr, i)
    def inv(self, i): return z3.Implies(z3.And(i >= 0, i < self.len), self.V.match(self.at(i), self.ct))


class Tab:
    def __init__(self, V, ex, st, v):
        v = deep(ex, st, v)
        if is_t(v): v = ex.decode(st, v, V.map)
        self.V, self.m, self.kt, self.ct = V, v.f[V.mm], v.f[V.mk], v.f[V.mc]
        self.o = ex.T.opt(self.m.vty)
        self.len = self.m.len
    def at(self, k): return z3.Select(self.m.arr, k)
    def has(self, k): return self.o[3](self.at(k))
    def val(self, k): return self.o[4](self.at(k))
    def inv(self, k): return z3.Implies(self.has(k), z3.And(self.V.kmatch(k, self.kt), self.V.match(self.val(k), self.ct)))


def same_seq(A, B, i): return z3.And(A.len == B.len, A.ct_eq(B) if False else z3.BoolVal(True), z3.Implies(z3.And(i >= 0, i < A.len), A.at(i) == B.at(i)))


def enc(ex, st, v, ty): return ex.encode(st, deep(ex, st, v) if isinstance(v, Ref) else v, ty)


class VCtx:
    def __init__(s, ex, st, V, A, B, args, var, f, inst):
        s.ex, s.st, s.V, s.A, s.B, s.args, s.var, s.f, s.inst = ex, st, V, A, B, args, var, f, inst
        s.rt = inst["locals"][0]
    def prove(s, name, goal): return prove(s.ex, s.st, ["C05"], name, goal)
    def never(s, name): return s.prove(name, z3.BoolVal(False))
    def value(s, v): return enc(s.ex, s.st, v, s.V.val)
    def err(s, kinds):
        et = s.ex.T.fields(s.rt, s.ex.T.vidx(s.rt, "Err"))[0]
        k = err_kind(s.ex, s.st, s.f[0], et)
        s.prove("the failure is of its documented kind", z3.Or([z3.And(k(n), c) for n, c in kinds.items()]))
    def types_kept(s):
        eq = lambda x, y, t: s.ex.encode(s.st, x, t) == s.ex.encode(s.st, y, t)
        g = [eq(s.A.ct, s.B.ct, s.V.ct)]
        if isinstance(s.A, Tab): g.append(eq(s.A.kt, s.B.kt, s.V.kt))
        s.prove("the declared types do not change", z3.And(g))
    def same(s):
        if isinstance(s.A, Seq):
            i = fresh(IntS, "anyidx")
            s.prove("the contents are unchanged", z3.And(s.A.len == s.B.len, z3.Implies(z3.And(i >= 0, i < s.A.len), s.A.at(i) == s.B.at(i))))
        else:
            k = fresh(s.V.vs, "anykey")
            s.prove("the contents are unchanged", z3.And(s.A.len == s.B.len, s.A.at(k) == s.B.at(k)))


def key_obl(ex, st, k, m, line):
    """hashing a StorageValue panics unless it is an integer or a string"""
    if ex.T.name(m.kty) != TY + "StorageValue": return
    V = ex.vals
    ok = z3.Or(V.isv(k, "Int"), V.isv(k, "String"))
    prove(ex, st, ["C05"], "no panic: a hashed key is an integer or a string", ok, line)
    st.add(ok)


def method(prefix, name, cls):
    def d(post):
        def run(prog, ex, inst):
            V = ex.vals = Vals(prog)
            ex.key_obligation = key_obl
            st = State()
            args = [ex.sym(st, inst["locals"][i + 1], "arg%d" % i) for i in range(inst["argc"])]
            A = None
            if name != "new":
                A = cls(V, ex, st, args[0])
                pool = ("idx",) if cls is Seq else (V.vs.name(),)
                st.quants.append(Quant("value invariant", pool, A.inv))
                satisfiable(ex, st, inst["name"])
            def done(ex, s, ret):
                B = cls(V, ex, s, ret if name == "new" else args[0])
                rt = inst["locals"][0]
                if ex.T.kind(rt) == "enum" and name != "new":
                    for s2, var, f in cases(ex, s, ret, rt):
                        post(VCtx(ex, s2, V, A, B, args, var, f, inst))
                else: post(VCtx(ex, s, V, A, B, args, None, (ret,), inst))
                x = fresh(IntS, "anyidx") if cls is Seq else fresh(V.vs, "anykey")
                prove(ex, s, ["C05"], "invariant: elements (and keys) have the declared types", B.inv(x))
                prove(ex, s, ["C05"], "length is not negative", B.len >= 0)
            start(ex, inst, st, args, done)
        CONTRACTS.append(Contract("%s::%s" % ("StorageVector" if cls is Seq else "StorageMap", name), ["C05"], exact(prefix + name), run))
        return post
    return d


def vec(name): return method(VEC, name, Seq)
def map_(name): return method(MAP, name, Tab)


def rest_same(c, n, but=None):
    i = fresh(IntS, "anyidx")
    cond = z3.And(i >= 0, i < n) if but is None else z3.And(i >= 0, i < n, i != but)
    c.prove("the other elements keep their place", z3.Implies(cond, c.A.at(i) == c.B.at(i)))


def others_same(c, k):
    q = fresh(c.V.vs, "otherkey")
    c.prove("the other keys are unchanged", z3.Implies(q != k, c.A.at(q) == c.B.at(q)))


@vec("new")
def _(c):
    c.prove("a new vector is empty", c.B.len == 0)
    c.prove("a new vector has the declared type", c.ex.encode(c.st, c.B.ct, c.V.ct) == enc(c.ex, c.st, c.args[0], c.V.ct))


@vec("pop")
def _(c):
    c.types_kept()
    if c.var == "Some":
        c.prove("pop returns the last element", z3.And(c.A.len > 0, c.value(c.f[0]) == c.A.at(c.A.len - 1)))
        c.prove("pop shortens the vector by one", c.B.len == c.A.len - 1)
        rest_same(c, c.B.len)
    else:
        c.prove("pop returns nothing only from an empty vector", c.A.len == 0); c.same()


@vec("len")
def _(c):
    c.prove("len is the number of elements", c.f[0] == c.A.len); c.same(); c.types_kept()


@vec("get")
def _(c):
    i = c.args[1]
    if c.var == "Ok": c.prove("get returns the element at the index", z3.And(i < c.A.len, c.value(c.f[0]) == c.A.at(i)))
    else: c.err({"IndexError": i >= c.A.len})
    c.same(); c.types_kept()


@vec("push")
def _(c):
    x = c.value(c.args[1])
    c.types_kept()
    if c.var == "Ok":
        c.prove("push accepts only the declared type", c.V.match(x, c.A.ct))
        c.prove("push adds the element at the end", z3.And(c.B.len == c.A.len + 1, c.B.at(c.A.len) == x))
        rest_same(c, c.A.len)
    else:
        c.err({"TypeError": z3.Not(c.V.match(x, c.A.ct))}); c.same()


@vec("set")
def _(c):
    i, x = c.args[1], c.value(c.args[2])
    c.types_kept()
    if c.var == "Ok":
        c.prove("set accepts only the declared type and an index in range", z3.And(c.V.match(x, c.A.ct), i < c.A.len))
        c.prove("set replaces the element", z3.And(c.B.len == c.A.len, c.B.at(i) == x))
        rest_same(c, c.A.len, i)
    else:
        c.err({"TypeError": z3.Not(c.V.match(x, c.A.ct)), "IndexError": i >= c.A.len}); c.same()


@map_("new")
def _(c):
    k = fresh(c.V.vs, "anykey")
    c.prove("a new map is empty", z3.And(c.B.len == 0, z3.Not(c.B.has(k))))
    c.prove("a new map has the declared types", z3.And(c.ex.encode(c.st, c.B.kt, c.V.kt) == enc(c.ex, c.st, c.args[0], c.V.kt), c.ex.encode(c.st, c.B.ct, c.V.ct) == enc(c.ex, c.st, c.args[1], c.V.ct)))


@map_("get")
def _(c):
    k = c.value(c.args[1])
    if c.var == "Ok": c.prove("get returns the value of the key", z3.And(c.A.has(k), c.value(c.f[0]) == c.A.val(k)))
    else: c.err({"TypeError": z3.Not(c.V.kmatch(k, c.A.kt)), "IndexError": z3.And(c.V.kmatch(k, c.A.kt), z3.Not(c.A.has(k)))})
    c.same(); c.types_kept()


@map_("contains_key")
def _(c):
    k = c.value(c.args[1])
    if c.var == "Ok": c.prove("contains_key tells whether the key is present", z3.And(c.V.kmatch(k, c.A.kt), c.f[0] == c.A.has(k)))
    else: c.err({"TypeError": z3.Not(c.V.kmatch(k, c.A.kt))})
    c.same(); c.types_kept()


@map_("set")
def _(c):
    k, x = c.value(c.args[1]), c.value(c.args[2])
    good = z3.And(c.V.kmatch(k, c.A.kt), c.V.match(x, c.A.ct))
    c.types_kept()
    if c.var == "Ok":
        c.prove("set accepts only the declared types", good)
        c.prove("set stores the value under the key", z3.And(c.B.has(k), c.B.val(k) == x))
        c.prove("set grows the map only by a new key", c.B.len == z3.If(c.A.has(k), c.A.len, c.A.len + 1))
        others_same(c, k)
    else:
        c.err({"TypeError": z3.Not(good)}); c.same()


@map_("delete")
def _(c):
    k = c.value(c.args[1])
    c.types_kept()
    if c.var == "Ok":
        c.prove("delete tells whether the key was present", z3.And(c.V.kmatch(k, c.A.kt), c.f[0] == c.A.has(k)))
        c.prove("delete removes the key", z3.And(z3.Not(c.B.has(k)), c.B.len == z3.If(c.A.has(k), c.A.len - 1, c.A.len)))
        others_same(c, k)
    else:
        c.err({"TypeError": z3.Not(c.V.kmatch(k, c.A.kt))}); c.same()


@map_("len")
def _(c):
    c.prove("len is the number of entries", c.f[0] == c.A.len); c.same(); c.types_kept()


# ------------------------------------------------------------------ key equality and hashing
@contract("StorageValue::eq", ["C05"], exact("<%sStorageValue as std::cmp::PartialEq>::eq" % TY))
def _(prog, ex, inst):
    V = Vals(prog)
    st = State()
    a, b = ex.sym(st, V.val, "a"), ex.sym(st, V.val, "b")
    def done(ex, s, ret):
        key = lambda x: z3.Or(V.isv(x, "Int"), V.isv(x, "String"))
        prove(ex, s, ["C05"], "two keys are equal exactly when they are the same key", z3.Implies(z3.And(key(a), key(b)), ret == (a == b)))
    start(ex, inst, st, [ex.ref_to(st, a), ex.ref_to(st, b)], done)


@contract("StorageValue::hash", ["C05"], rx(r"<server::storage::types::StorageValue as std::hash::Hash>::hash::<.*>"))
def _(prog, ex, inst):
    V = Vals(prog)
    st = State()
    a = ex.sym(st, V.val, "a")
    st.add(z3.Or(V.isv(a, "Int"), V.isv(a, "String")))
    def done(ex, s, ret):
        # equal keys feed the hasher the same data: everything fed is a function of the key
        ok = True
        for e in s.events:
            if e[0] == "hash": ok = ok and only(e[2], a)
        prove(ex, s, ["C05"], "equal keys feed the hasher the same data", z3.BoolVal(ok))
    start(ex, inst, st, [ex.ref_to(st, a), ex.ref_to(st, fresh(z3.DeclareSort("hasher"), "h"))], done)


def only(t, a):
    """the term is built from a alone"""
    if t.eq(a): return True
    if t.num_args() == 0: return not (t.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in t.decl().name())
    return all(only(c, a) for c in t.children())


# ------------------------------------------------------------------ derived impls used as contracts elsewhere
def clone_contract(inst):
    ty = inst["name"]
    def run(prog, ex, i):
        st = State()
        a = ex.sym(st, prog.T.t[i["locals"][1]]["to"], "orig")
        def done(ex, s, ret):
            t = i["locals"][0]
            prove(ex, s, ["clone"], "clone equals its original", ex.encode(s, ret, t) == ex.encode(s, a, t))
        start(ex, i, st, [ex.ref_to(st, a)], done)
    return run


CLONES = ["storage::types::StorageValue", "storage::types::StorageVector", "storage::types::StorageMap", "storage::types::StorageElement",
          "storage::types::KeyType", "storage::types::CollectionType", "analysis::tokens::Token", "analysis::tokens::AnnotatedToken",
          "analysis::statements::Statement", "auth::AuthorizationLevel", "auth::AuthenticationResult",
          "analysis::interpreter::InterpreterResponse", "analysis::interpreter::InterpreterRequest"]
CLONE_USERS = {"storage::types::StorageValue": ["C01", "C08"], "storage::types::StorageVector": ["C01", "C08"], "storage::types::StorageMap": ["C01", "C08"], "storage::types::StorageElement": ["C01", "C08"],
               "storage::types::KeyType": ["C08", "C13"], "storage::types::CollectionType": ["C08", "C13"], "analysis::tokens::Token": ["C11", "C13"], "analysis::tokens::AnnotatedToken": ["C13"],
               "analysis::statements::Statement": ["C07"], "auth::AuthorizationLevel": ["C14"], "auth::AuthenticationResult": ["C14"],
               "analysis::interpreter::InterpreterResponse": ["C16", "C18"], "analysis::interpreter::InterpreterRequest": ["C14"]}


def opt_find(name):
    def f(p):
        return p.crate.find(name)
    return f


for _n in CLONES:
    def _mk(n):
        nm = "<server::%s as std::clone::Clone>::clone" % n
        def run(prog, ex, i):
            if i is None: return          # not cloned anywhere any more
            clone_contract(i)(prog, ex, i)
            for o in ex.obls: o.tags = CLONE_USERS[n]
        CONTRACTS.append(Contract("Clone of " + n, CLONE_USERS[n], opt_find(nm), run))
    _mk(_n)
