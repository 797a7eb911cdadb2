"""Contracts of the Storage trait methods of HashMapStorage (C01-C04).

Representation invariant of HashMapStorage (S: the hash map, E: the vector of expiring keys):
  (a) S[k] present with an expiry   => S[k].key_index = Some(i), 0 <= i < |E|, E[i] = k
  (b) S[k] present without expiry   => S[k].key_index = None
  (c) 0 <= i < |E|                  => S[E[i]] present, with an expiry, and its key_index = Some(i)
Abstract view: M[k] = S[k].element.
"""
from engine import *
from models import deep

PRE = "<server::storage::hashmap_storage::HashMapStorage as server::storage::types::Storage>::"
NEW = "server::storage::hashmap_storage::HashMapStorage::new"


class Shape:
    """the fields of the storage, found by type"""
    def __init__(self, prog, tid):
        T = prog.T
        self.T, self.tid = T, tid
        fs = T.fields(tid)
        ms = [i for i, f in enumerate(fs) if T.kind(f) == "hmap"]
        vs = [i for i, f in enumerate(fs) if T.kind(f) == "vec"]
        if len(ms) != 1 or len(vs) != 1: raise Lost("fields of HashMapStorage")
        self.mi, self.vi = ms[0], vs[0]
        mt, vt = fs[self.mi], fs[self.vi]
        if T.kind(T.arg(mt, 0)) != "str" or T.kind(T.arg(vt, 0)) != "str": raise Lost("key type of HashMapStorage")
        self.ct = T.arg(mt, 1)           # container
        if T.kind(self.ct) != "struct": raise Lost("container of HashMapStorage")
        cf = T.fields(self.ct)
        es = [i for i, f in enumerate(cf) if T.name(f).endswith("StorageElement")]
        ks = [i for i, f in enumerate(cf) if T.name(f) == "std::option::Option<usize>"]
        if len(es) != 1 or len(ks) != 1: raise Lost("fields of the container")
        self.ei, self.ki = es[0], ks[0]
        self.et = cf[self.ei]
        self.kt = cf[self.ki]
        self.xi = T.fidx(self.et, "expiration")
        self.xt = T.fields(self.et)[self.xi]
        self.opt = T.opt(self.ct)
        self.csort = T.sort(self.ct)
        self.esort = T.sort(self.et)
        self.ks = T.sort(self.kt)
        self.xs = T.sort(self.xt)
        self.kn, self.ksm = T.vidx(self.kt, "None"), T.vidx(self.kt, "Some")
        self.xn, self.xsm = T.vidx(self.xt, "None"), T.vidx(self.xt, "Some")

    def has(self, e): return self.opt[3](e)
    def cont(self, e): return self.opt[4](e)
    def elem(self, e): return self.csort.accessor(0, self.ei)(self.cont(e))
    def kidx(self, e): return self.csort.accessor(0, self.ki)(self.cont(e))
    def exp(self, el): return self.esort.accessor(0, self.xi)(el)
    def hasexp(self, el): return self.xs.recognizer(self.xsm)(self.exp(el))
    def expt(self, el): return self.xs.accessor(self.xsm, 0)(self.exp(el))
    def kis(self, k): return self.ks.recognizer(self.ksm)(k)
    def kval(self, k): return self.ks.accessor(self.ksm, 0)(k)


class View:
    def __init__(self, sh, ex, st, v):
        v = deep(ex, st, v)
        if is_t(v): v = ex.decode(st, v, sh.tid)
        self.sh = sh
        self.S, self.E = v.f[sh.mi], v.f[sh.vi]
        if not isinstance(self.S, MapV) or not isinstance(self.E, VecV): raise Unsupported("storage fields")

    def at(self, k): return z3.Select(self.S.arr, k)
    def key(self, i): return z3.Select(self.E.arr, i)

    def inv_k(self, q):
        sh = self.sh
        e = self.at(q)
        ki = sh.kidx(e)
        a = z3.Implies(z3.And(sh.has(e), sh.hasexp(sh.elem(e))),
                       z3.And(sh.kis(ki), sh.kval(ki) >= 0, sh.kval(ki) < self.E.len, self.key(sh.kval(ki)) == q))
        b = z3.Implies(z3.And(sh.has(e), z3.Not(sh.hasexp(sh.elem(e)))), z3.Not(sh.kis(ki)))
        return z3.And(a, b)

    def inv_i(self, i):
        sh = self.sh
        e = self.at(self.key(i))
        ki = sh.kidx(e)
        return z3.Implies(z3.And(i >= 0, i < self.E.len),
                          z3.And(sh.has(e), sh.hasexp(sh.elem(e)), sh.kis(ki), sh.kval(ki) == i))

    def assume_inv(self, st):
        st.quants.append(Quant("inv_k", ("Str",), self.inv_k))
        st.quants.append(Quant("inv_i", ("idx",), self.inv_i))

    def prove_inv(self, ex, st, tags):
        q = fresh(StrS, "anykey")
        i = fresh(IntS, "anyidx")
        ok1 = prove(ex, st, tags, "invariant: every entry with an expiry is listed at its key index, others are not", self.inv_k(q))
        ok2 = prove(ex, st, tags, "invariant: every listed key is an entry with an expiry, once", self.inv_i(i))
        return ok1 and ok2


def shape(prog):
    i = exact(NEW)(prog)
    return Shape(prog, i["locals"][0])


def ts(st): return st.ghost.get("clock", ())


def absent_ok(sh, V, k, st):
    e = V.at(k)
    return z3.Or([z3.Not(sh.has(e))] + [z3.And(sh.hasexp(sh.elem(e)), t >= sh.expt(sh.elem(e))) for t in ts(st)])


def present_ok(sh, V, k, st):
    e = V.at(k)
    return z3.And(sh.has(e), z3.Or([z3.Not(sh.hasexp(sh.elem(e)))] + [t <= sh.expt(sh.elem(e)) for t in ts(st)]))


def expired_ok(sh, V, k, st):
    e = V.at(k)
    return z3.And(sh.has(e), sh.hasexp(sh.elem(e)), z3.Or([t >= sh.expt(sh.elem(e)) for t in ts(st)]) if ts(st) else z3.BoolVal(False))


def same_entry(sh, a, b):
    """same element (the key index may differ)"""
    return z3.And(sh.has(a) == sh.has(b), z3.Implies(sh.has(a), sh.elem(a) == sh.elem(b)))


def frame(ex, st, sh, V, W, k, tags):
    """all keys other than k unchanged"""
    q = fresh(StrS, "otherkey")
    prove(ex, st, tags, "frame: no other key's entry changes", z3.Implies(q != k, same_entry(sh, V.at(q), W.at(q))))


def unchanged(ex, st, sh, V, W, k, tags, name):
    """entry k unchanged, or dropped because it had expired"""
    prove(ex, st, tags, name, z3.Or(same_entry(sh, V.at(k), W.at(k)), z3.And(z3.Not(sh.has(W.at(k))), expired_ok(sh, V, k, st))))


def cases(ex, st, v, ty):
    """variants of a Result/Option value: list of (state, variant name, payload values)"""
    T = ex.T
    if isinstance(v, Adt): return [(st, T.variants(ty)[v.var]["name"], v.f)]
    out = []
    for i, vr in enumerate(T.variants(ty)):
        s2 = st.copy()
        c = T.sort(ty).recognizer(i)(v)
        if not ex.feasible(s2, c): continue
        s2.add(c)
        d = ex.downcast(s2, v, ty, i)
        out.append((s2, vr["name"], d.f))
    return out


def err_kind(ex, st, v, ty):
    """name of the error variant as a function: goal builder"""
    def is_(name):
        i = ex.T.vidx(ty, name)
        if isinstance(v, Adt): return z3.BoolVal(v.var == i)
        return ex.T.sort(ty).recognizer(i)(v)
    return is_


def setup(prog, ex, inst):
    sh = shape(prog)
    st = State()
    args = []
    for i in range(inst["argc"]):
        args.append(ex.sym(st, inst["locals"][i + 1], "arg%d" % i))
    V = View(sh, ex, st, args[0])
    V.assume_inv(st)
    satisfiable(ex, st, inst["name"])
    return sh, st, args, V


ALL = ["C01", "C02", "C03", "C04"]
INV = ["C04", "C20"]


def op(meth, tags=("C01", "C02", "C04")):
    """decorator: post(c) gets a Ctx"""
    def d(post):
        def run(prog, ex, inst):
            sh, st, args, V = setup(prog, ex, inst)
            k = deep(ex, st, args[1]) if len(args) > 1 else None
            ex.panic_tags = ["C04"]
            def done(ex, s, ret):
                W = View(sh, ex, s, args[0])
                for s2, var, f in cases(ex, s, ret, inst["locals"][0]):
                    post(Ctx(ex, s2, sh, V, W, k, args, var, f, inst))
                W.prove_inv(ex, s, INV)
            start(ex, inst, st, args, done)
            for o in ex.obls:
                if getattr(o, "tags", None) is None: o.tags = ["C04"]
        CONTRACTS.append(Contract("Storage::" + meth, list(tags) + ["C20"], exact(PRE + meth), run))
        return post
    return d


class Ctx:
    def __init__(self, ex, st, sh, V, W, k, args, var, f, inst):
        self.ex, self.st, self.sh, self.V, self.W, self.k, self.args, self.var, self.f, self.inst = ex, st, sh, V, W, k, args, var, f, inst
        self.rt = inst["locals"][0]

    def prove(self, tags, name, goal): return prove(self.ex, self.st, tags, name, goal)
    def never(self, tags, name): return self.prove(tags, name, z3.BoolVal(False))
    def absent(self, name): return self.prove(["C02"], name, absent_ok(self.sh, self.V, self.k, self.st))
    def present(self, name): return self.prove(["C02"], name, present_ok(self.sh, self.V, self.k, self.st))
    def frame(self): frame(self.ex, self.st, self.sh, self.V, self.W, self.k, ["C01"])
    def same(self, name="the entry itself is unchanged"): unchanged(self.ex, self.st, self.sh, self.V, self.W, self.k, ["C01"], name)
    def keyerr(self):
        et = self.ex.T.fields(self.rt, self.ex.T.vidx(self.rt, "Err"))[0]
        self.prove(["C02"], "the failure is a key error", err_kind(self.ex, self.st, self.f[0], et)("KeyError"))
    def elem(self, v): return self.ex.encode(self.st, deep(self.ex, self.st, v), self.sh.et)
    def truth(self, v):
        return v
    def becomes(self, el, name):
        e = self.W.at(self.k)
        self.prove(["C01"], name, z3.And(self.sh.has(e), self.sh.elem(e) == el))
    def gone(self, name):
        self.prove(["C01"], name, z3.Not(self.sh.has(self.W.at(self.k))))
    def stored(self, v, name):
        self.prove(["C01"], name, self.sh.elem(self.V.at(self.k)) == self.elem(v))
    def isboth(self, b, yes, no):
        """split on a boolean result"""
        b = simp(b)
        for val, fn in ((True, yes), (False, no)):
            c = b if val else z3.Not(b)
            if not self.ex.feasible(self.st, c): continue
            s2 = self.st.copy(); s2.add(c)
            fn(Ctx(self.ex, s2, self.sh, self.V, self.W, self.k, self.args, self.var, self.f, self.inst))


@op("get")
def _(c):
    if c.var == "Ok":
        c.present("get succeeds only for a live entry")
        c.stored(c.f[0], "get returns the stored element")
    else:
        c.absent("get fails only when the entry is missing or expired")
        c.keyerr()
    c.frame(); c.same()


@op("get_if_exists")
def _(c):
    if c.var == "Err": return c.never(["C02"], "get_if_exists does not fail")
    rt = c.ex.T.fields(c.rt, c.ex.T.vidx(c.rt, "Ok"))[0]
    for s, var, f in cases(c.ex, c.st, c.f[0], rt):
        d = Ctx(c.ex, s, c.sh, c.V, c.W, c.k, c.args, var, f, c.inst)
        if var == "Some":
            d.present("get_if_exists returns only a live entry")
            d.stored(f[0], "get_if_exists returns the stored element")
        else: d.absent("get_if_exists misses only when the entry is missing or expired")
    c.frame(); c.same()


@op("get_mut")
def _(c):
    if c.var == "Err":
        c.absent("get_mut fails only when the entry is missing or expired")
        c.keyerr(); c.frame(); c.same()
        return
    c.present("get_mut succeeds only for a live entry")
    r = c.f[0]
    c.stored(r, "get_mut points at the stored element")
    # a write through the reference lands on this entry and on no other
    s = c.st
    old = c.ex.read(s, r)
    if is_t(old): old = c.ex.decode(s, old, c.sh.et)
    n = c.ex.sym(s, c.sh.et, "written")
    fs = list(n.f); fs[c.sh.xi] = old.f[c.sh.xi]
    n = Adt(n.ty, n.var, fs)
    c.ex.write(s, r, n)
    c.W = View(c.sh, c.ex, s, c.args[0])
    c.becomes(c.ex.encode(s, n, c.sh.et), "a write through get_mut lands on the entry")
    c.frame()
    c.W.prove_inv(c.ex, s, INV)


@op("set")
def _(c):
    if c.var == "Err": return c.never(["C01"], "set does not fail")
    c.becomes(c.elem(c.args[2]), "set stores the value")
    c.frame()


@op("update")
def _(c):
    if c.var == "Ok":
        c.present("update succeeds only for a live entry")
        c.becomes(c.elem(c.args[2]), "update stores the value")
    else:
        c.absent("update fails only when the entry is missing or expired")
        c.keyerr(); c.same("a failed update leaves the entry unchanged")
    c.frame()


@op("set_if_not_exists")
def _(c):
    if c.var == "Err": return c.never(["C02"], "set_if_not_exists does not fail")
    def yes(d):
        d.absent("set_if_not_exists sets only when the entry is missing or expired")
        d.becomes(d.elem(d.args[2]), "set_if_not_exists stores the value")
    def no(d):
        d.present("set_if_not_exists refuses only for a live entry")
        d.same("a refused set_if_not_exists leaves the entry unchanged")
    c.isboth(c.f[0], yes, no)
    c.frame()


@op("delete")
def _(c):
    if c.var == "Err": return c.never(["C02"], "delete does not fail")
    def yes(d):
        d.present("delete reports a deletion only for a live entry")
        d.gone("delete removes the entry")
    def no(d):
        d.absent("delete reports nothing deleted only when the entry is missing or expired")
        d.same("delete that reports nothing leaves no change but dropping an expired entry")
    c.isboth(c.f[0], yes, no)
    c.frame()


@op("contains_key")
def _(c):
    if c.var == "Err": return c.never(["C02"], "contains_key does not fail")
    c.isboth(c.f[0], lambda d: d.present("contains_key is true only for a live entry"),
             lambda d: d.absent("contains_key is false only when the entry is missing or expired"))
    c.frame(); c.same()


@op("update_expiration")
def _(c):
    sh = c.sh
    if c.var == "Ok":
        c.present("update_expiration succeeds only for a live entry")
        old = c.ex.decode(c.st, sh.elem(c.V.at(c.k)), sh.et)
        fs = list(old.f); fs[sh.xi] = deep(c.ex, c.st, c.args[2])
        c.becomes(c.ex.encode(c.st, Adt(sh.et, 0, fs), sh.et), "update_expiration sets the expiry and keeps the value")
    else:
        c.absent("update_expiration fails only when the entry is missing or expired")
        c.keyerr(); c.same("a failed update_expiration leaves the entry unchanged")
    c.frame()


@op("len", ("C01", "C04"))
def _(c):
    q = fresh(StrS, "anykey")
    c.prove(["C01"], "len changes nothing", same_entry(c.sh, c.V.at(q), c.W.at(q)))


@op("expiring_keys_count", ("C04",))
def _(c):
    if c.var == "Err": return c.never(["C04"], "expiring_keys_count does not fail")
    c.prove(["C04"], "the reported count is the number of listed keys", c.f[0] == c.V.E.len)
    q = fresh(StrS, "anykey")
    c.prove(["C04"], "expiring_keys_count changes nothing", same_entry(c.sh, c.V.at(q), c.W.at(q)))


@op("check_and_expire", ("C01", "C03", "C04"))
def _(c):
    if c.var == "Err":
        q = fresh(StrS, "anykey")
        c.prove(["C03"], "a failed check_and_expire changes nothing", same_entry(c.sh, c.V.at(q), c.W.at(q)))
        c.prove(["C03"], "check_and_expire fails only for a missing key", z3.Not(c.sh.has(c.V.at(c.k))))
        return
    def yes(d):
        d.prove(["C03"], "check_and_expire removes only an expired entry", expired_ok(d.sh, d.V, d.k, d.st))
        d.prove(["C03"], "check_and_expire returns true only when it removed the entry", z3.Not(d.sh.has(d.W.at(d.k))))
    def no(d):
        d.prove(["C03"], "check_and_expire returning false changes nothing", same_entry(d.sh, d.V.at(d.k), d.W.at(d.k)))
    c.isboth(c.f[0], yes, no)
    q = fresh(StrS, "otherkey")
    c.prove(["C01", "C03"], "frame: no other key's entry changes", z3.Implies(q != c.k, same_entry(c.sh, c.V.at(q), c.W.at(q))))


@op("invalidate_expired_keys", ("C01", "C03", "C04"))
def _(c):
    if c.var == "Err": return c.never(["C03", "C20"], "a pass never fails")
    n = c.f[0]
    q, r = fresh(StrS, "anykey"), fresh(StrS, "anykey")
    sh = c.sh
    same = lambda x: same_entry(sh, c.V.at(x), c.W.at(x))
    c.prove(["C03"], "a pass reports 0 or 1", z3.Or(n == 0, n == 1))
    c.prove(["C03"], "a pass reporting 0 changes nothing", z3.Implies(n == 0, same(q)))
    c.prove(["C01", "C03", "C20"], "a pass changes an entry only by removing an expired one", z3.Or(same(q), z3.And(expired_ok(sh, c.V, q, c.st), z3.Not(sh.has(c.W.at(q))))))
    c.prove(["C03"], "a pass removes at most one entry", z3.Or(same(q), same(r), q == r))
    c.prove(["C03"], "the number removed is the number reported", c.W.S.len == c.V.S.len - n)


@contract("HashMapStorage::new", ["C01", "C04", "C20"], exact(NEW))
def _(prog, ex, inst):
    sh = shape(prog)
    def done(ex, s, ret):
        W = View(sh, ex, s, ret)
        q = fresh(StrS, "anykey")
        prove(ex, s, ["C01"], "a new store is empty", z3.Not(sh.has(W.at(q))))
        W.prove_inv(ex, s, INV)
        prove(ex, s, ["C04"], "a new store lists no expiring key", W.E.len == 0)
    start(ex, inst, State(), [], done)


@contract("any expiring key can be chosen by a pass", ["C04", "C20"], exact(PRE + "invalidate_expired_keys"), possibility=True)
def _(prog, ex, inst):
    """for every listed position i there is a random choice (namely i) that makes the pass collect E[i] if it has expired"""
    sh, st, args, V = setup(prog, ex, inst)
    i = fresh(IntS, "wanted")
    st.add(z3.And(i >= 0, i < V.E.len))
    k = V.key(i)
    def rnd(ex, s, a, cx): return i
    import re as _re
    ex.models = [(_re.compile(r".*RngCore>?::next_u(32|64)"), rnd)] + ex.models
    n = []
    def done(ex, s, ret):
        W = View(sh, ex, s, args[0])
        el = sh.elem(V.at(k))
        late = z3.And([t > sh.expt(el) for t in ts(s)])
        o = len(ex.obls)
        prove(ex, s, INV, "possibility: the expired key at any position can be collected", z3.Implies(late, z3.Not(sh.has(W.at(k)))))
        for x in ex.obls[o:]: x.havoced = True
    start(ex, inst, st, args, done)
    # other obligations of this run are covered by the contract of the function itself
    ex.obls = [o for o in ex.obls if o.name.startswith("possibility")]
