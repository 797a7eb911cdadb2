"""Symbolic execution of monomorphic MIR and generation of verification conditions.

A run explores every path of one function (callees are inlined, replaced by a model of a standard
library function, or replaced by the callee's contract).  Values are structured Python objects whose
leaves are z3 terms; nothing is bounded except where a loop is explicitly unrolled (and reported so).
"""
import z3, time, re
import mir

I64MAX = (1 << 63) - 1
U64MAX = (1 << 64) - 1


class Unsupported(Exception):
    """The verifier cannot decide: never an alarm."""


class Adt:
    __slots__ = ("ty", "var", "f")
    def __init__(self, ty, var, f): self.ty, self.var, self.f = ty, var, tuple(f)
    def __repr__(self): return "Adt(%s,%s,%r)" % (self.ty, self.var, list(self.f))


class VecV:
    __slots__ = ("ety", "arr", "len")
    def __init__(self, ety, arr, len_): self.ety, self.arr, self.len = ety, arr, len_
    def __repr__(self): return "VecV(len=%s)" % self.len


class MapV:
    __slots__ = ("kty", "vty", "arr", "len")
    def __init__(self, kty, vty, arr, len_): self.kty, self.vty, self.arr, self.len = kty, vty, arr, len_
    def __repr__(self): return "MapV"


class Ref:
    __slots__ = ("cell", "path")
    def __init__(self, cell, path=()): self.cell, self.path = cell, tuple(path)
    def __repr__(self): return "Ref(%s,%r)" % (self.cell, self.path)


class Iter:
    """slice::Iter / IterMut (seq = Ref to sequence) or vec::IntoIter (seq = VecV)"""
    __slots__ = ("kind", "seq", "pos", "end", "ety")
    def __init__(self, kind, seq, pos, end, ety): self.kind, self.seq, self.pos, self.end, self.ety = kind, seq, pos, end, ety
    def __repr__(self): return "Iter(%s,%s..%s)" % (self.kind, self.pos, self.end)


class FnV:
    __slots__ = ("ty",)
    def __init__(self, ty): self.ty = ty


class Opq:
    """opaque python-level value: kind and payload"""
    __slots__ = ("kind", "d")
    def __init__(self, kind, **d): self.kind, self.d = kind, d
    def __repr__(self): return "Opq(%s)" % self.kind


class DiscrOf:
    __slots__ = ("term", "ty")
    def __init__(self, term, ty): self.term, self.ty = term, ty


UNINIT = Opq("uninit")
IntS, BoolS = z3.IntSort(), z3.BoolSort()
StrS = z3.DeclareSort("Str")
FloatS = z3.DeclareSort("F32")


def is_t(v): return isinstance(v, z3.ExprRef)
def iv(n): return z3.IntVal(n)


def simp(t):
    return z3.simplify(t)


_fresh = [0]
def fresh(sort, base="v"):
    _fresh[0] += 1
    return z3.Const("%s!%d" % (base, _fresh[0]), sort)


class Fork(Exception):
    pass


class Frame:
    __slots__ = ("inst", "loc", "bb", "dest", "ret", "cuts", "uid")
    def __init__(self, inst, dest, ret, uid):
        self.inst, self.loc, self.bb, self.dest, self.ret = inst, {}, 0, dest, ret
        self.cuts = {}
        self.uid = uid
    def copy(self):
        f = Frame(self.inst, self.dest, self.ret, self.uid)
        f.loc = dict(self.loc); f.bb = self.bb; f.cuts = dict(self.cuts)
        return f


class State:
    def __init__(self):
        self.cells = {}
        self.frames = []
        self.pc = []          # quantifier free facts of this path
        self.quants = []      # quantified facts (Quant objects)
        self.events = []      # ghost trace
        self.ghost = {}       # contract specific ghost state
        self.trace = []       # source lines of decisions
        self.known = {}       # term id -> variant
        self.ranged = set()
        self.keep = []        # keep terms alive so ids stay unique
        self.havoced = False  # an unconstrained or cut value took part: failures are not definitive

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc); s.quants = list(self.quants); s.events = list(self.events)
        s.ghost = dict(self.ghost); s.trace = list(self.trace); s.known = dict(self.known)
        s.ranged = set(self.ranged); s.keep = list(self.keep); s.havoced = self.havoced
        return s

    def add(self, c):
        if c is None or c is True: return
        if z3.is_true(c): return
        self.pc.append(c)


class Quant:
    """forall x in pools: body(x...), instantiated over ground terms of the query.
    pools: tuple of pool names (a sort name, 'idx' for integer array indices, '@f' for applications of f)
    or a function Pools -> iterable of tuples"""
    def __init__(self, name, pools, body):
        self.name, self.pools, self.body = name, pools, body

    def tuples(self, P):
        if callable(self.pools):
            yield from self.pools(P)
        elif len(self.pools) == 1:
            for x in list(P.get(self.pools[0])): yield (x,)
        else:
            import itertools
            for t in itertools.product(*[list(P.get(p)) for p in self.pools]): yield t


OPAQUE = {"tokio::net::TcpStream", "tokio::net::TcpListener", "tokio::sync::mpsc::Sender", "tokio::sync::mpsc::Receiver", "tokio::task::JoinHandle",
          "std::task::Context", "std::sync::atomic::Atomic", "std::sync::atomic::AtomicBool", "std::io::Error", "core::io::Error"}


class Types:
    """rust types -> z3 sorts"""
    def __init__(self, crate):
        self.c = crate
        self.t = crate.types
        self.sorts = {}
        self.dt_ty = {}       # sort name -> tid
        self.busy = set()
        self.vecf = {}
        self.mapf = {}
        self.optf = {}

    def name(self, t): return self.t[t]["name"]

    def kind(self, tid):
        t = self.t[tid]
        k = t["k"]
        if k == "adt":
            p = t["path"]
            if p in ("std::string::String", "alloc::string::String"): return "str"
            if p in ("std::boxed::Box", "alloc::boxed::Box"): return "box"
            if p in ("std::vec::Vec", "alloc::vec::Vec"): return "vec"
            if p in ("std::collections::HashMap", "std::collections::hash_map::HashMap"): return "hmap"
            if p in ("std::time::SystemTime", "std::time::Instant"): return "time"
            if p in ("std::time::Duration", "core::time::Duration"): return "dur"
            if p.endswith("mem::MaybeUninit") or p.endswith("mem::ManuallyDrop") or p.endswith("mem::MaybeDangling") or p.endswith("mem::maybe_dangling::MaybeDangling"): return "transp"
            if p in ("std::vec::IntoIter", "std::vec::Drain", "alloc::vec::drain::Drain", "std::slice::Iter", "std::slice::IterMut", "std::str::Chars", "std::array::IntoIter", "core::array::IntoIter", "core::slice::iter::Iter", "alloc::vec::into_iter::IntoIter"): return "iter"
            if p in OPAQUE: return "opaque"
            if not t["variants"]: return "opaque"
            return t["adt"]
        return k

    def arg(self, tid, i): return self.t[tid]["args"][i]

    def is_dyn(self, tid): return self.t[tid]["k"] == "dyn"

    def variants(self, tid): return self.t[tid]["variants"]

    def vidx(self, tid, name):
        for i, v in enumerate(self.variants(tid)):
            if v["name"] == name: return i
        raise Unsupported("no variant %s of %s" % (name, self.name(tid)))

    def fidx(self, tid, name, var=0):
        for i, f in enumerate(self.variants(tid)[var]["fields"]):
            if f[0] == name: return i
        raise Unsupported("no field %s of %s" % (name, self.name(tid)))

    def sort(self, tid):
        s = self.sorts.get(tid)
        if s is not None: return s
        k = self.kind(tid)
        t = self.t[tid]
        if k in ("int", "char", "time", "dur"): s = IntS
        elif k == "bool": s = BoolS
        elif k == "float": s = FloatS
        elif k == "str": s = StrS
        elif k in ("box",): 
            a = self.arg(tid, 0)
            s = z3.DeclareSort("Opq<%s>" % t["name"]) if self.is_dyn(a) else self.sort(a)
        elif k == "transp": s = self.sort(self.arg(tid, 0))
        elif k == "ref":
            a = t["to"]
            s = z3.DeclareSort("Opq<%s>" % t["name"]) if self.is_dyn(a) else self.sort(a)
        elif k == "vec": s = self.vec_sort(self.arg(tid, 0))
        elif k in ("slice", "array"): s = self.vec_sort(t["elem"])
        elif k == "hmap": s = self.map_sort(self.arg(tid, 0), self.arg(tid, 1))
        elif k in ("struct", "enum", "tuple"):
            if tid in self.busy: raise Unsupported("recursive type " + t["name"])
            self.busy.add(tid)
            try:
                vs = [{"name": "T", "fields": [["f%d" % i, f] for i, f in enumerate(t["fields"])]}] if k == "tuple" else t["variants"]
                d = z3.Datatype("%s" % t["name"])
                for vi, v in enumerate(vs):
                    fs = [("%s#%d.%d.%d" % (t["name"], tid, vi, fi), self.sort(f[1])) for fi, f in enumerate(v["fields"])]
                    d.declare("%s#%d::%s" % (t["name"], tid, v["name"]), *fs)
                s = d.create()
            finally:
                self.busy.discard(tid)
        elif k in ("closure", "coroutine"):
            raise Unsupported("sort of closure")
        else:
            s = z3.DeclareSort("Opq<%s>" % t["name"])
        self.sorts[tid] = s
        return s

    def vec_sort(self, ety):
        n = "Vec<%s>" % self.name(ety)
        return z3.DeclareSort(n)

    def empty(self, ety):
        """what lies beyond the end of a new vector: any fixed choice is sound"""
        return z3.Const("empty<%s>" % self.name(ety), z3.ArraySort(IntS, self.sort(ety)))

    def vec_fns(self, ety):
        """(len, arr, mk)"""
        r = self.vecf.get(ety)
        if r is None:
            S = self.vec_sort(ety)
            A = z3.ArraySort(IntS, self.sort(ety))
            n = self.name(ety)
            r = (z3.Function("len<%s>" % n, S, IntS), z3.Function("arr<%s>" % n, S, A), z3.Function("mk<%s>" % n, IntS, A, S))
            self.vecf[ety] = r
        return r

    def map_sort(self, k, v):
        return z3.DeclareSort("Map<%s,%s>" % (self.name(k), self.name(v)))

    def opt(self, vty):
        """(sort, none, some, is_some, val)"""
        r = self.optf.get(vty)
        if r is None:
            n = "Opt<%s>" % self.name(vty)
            d = z3.Datatype(n)
            d.declare("none<%s>" % n)
            d.declare("some<%s>" % n, ("val<%s>" % n, self.sort(vty)))
            d = d.create()
            r = (d, d.constructor(0)(), d.constructor(1), d.recognizer(1), d.accessor(1, 0))
            self.optf[vty] = r
        return r

    def map_fns(self, k, v):
        r = self.mapf.get((k, v))
        if r is None:
            S = self.map_sort(k, v)
            A = z3.ArraySort(self.sort(k), self.opt(v)[0])
            n = "%s,%s" % (self.name(k), self.name(v))
            r = (z3.Function("mlen<%s>" % n, S, IntS), z3.Function("marr<%s>" % n, S, A), z3.Function("mmk<%s>" % n, IntS, A, S))
            self.mapf[(k, v)] = r
        return r

    def fields(self, tid, var=0):
        t = self.t[tid]
        if t["k"] == "tuple": return list(t["fields"])
        if t["k"] == "closure": return list(t["upvars"])
        if t["k"] == "coroutine": return list(t["upvars"]) + list(t["saved"])
        return [f[1] for f in t["variants"][var]["fields"]]

    def int_range(self, tid):
        t = self.t[tid]
        if t["k"] == "char": return (0, 0x10FFFF)
        if t["k"] != "int": return None
        b = t["bits"]
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t["signed"] else (0, (1 << b) - 1)


class Obl:
    def __init__(self, name, status, detail="", line="", havoced=False, model=None, trace=None):
        self.name, self.status, self.detail, self.line, self.havoced, self.model, self.trace = name, status, detail, line, havoced, model, trace


class Exec:
    def __init__(self, crate, types=None):
        self.c = crate
        self.T = types or Types(crate)
        self.models = []        # list of (regex, fn)
        self.mcache = {}
        self.obls = []
        self.bad_count = {}
        self.undecided = []     # reasons
        self.solver = z3.Solver()
        self.solver.set("timeout", 3000)
        self.sstack = []
        self.max_paths = 4000
        self.npaths = 0
        self.stats = {"queries": 0, "time": 0.0, "z3": 0, "cvc5": 0}
        self.globals = []       # global axioms (ground)
        self.keep_format = False
        self.top_name = None
        self.clones = set()
        self.key_obligation = None
        self.gquants = []       # global quantified axioms
        self.solve_timeout = 10
        self.lits = {}
        self.cuid = 0
        self.fuid = 0
        self.loop_mode = lambda ex, st, fr, header: 'unroll'
        self.loop_spec = None
        self.need_termination = True
        self.on_head = None     # hook: called at the head of every round of an outermost loop
        self.first_round = False
        self.on_back = None     # hook: called at every back edge of a loop under invariant
        self.mute = 0
        self.max_unroll = 3
        self.on_done = None
        self.deadline = None
        self.unrolled = set()
        self.inlined = set()
        self.modelled = set()
        self.contract_calls = set()
        self.term_cache = {}
        self.assume_used = set()
        self.panic_tag = "panic"
        self.calls_in_progress = 0
        self.unroll_all = False

    # ---------------------------------------------------------------- strings
    def lit(self, s):
        t = self.lits.get(s)
        if t is None:
            t = z3.Const("str:%s" % s, StrS)
            self.lits[s] = t
            self.globals.append(z3.Function("litid", StrS, IntS)(t) == len(self.lits))
        return t

    # ---------------------------------------------------------------- cells
    def new_cell(self, st, v):
        self.cuid += 1
        st.cells[self.cuid] = v
        return self.cuid

    def ref_to(self, st, v): return Ref(self.new_cell(st, v))

    # ---------------------------------------------------------------- symbolic values
    def rng(self, st, term, tid):
        k = self.T.kind(tid)
        if z3.is_int_value(term): return
        if k in ("int", "char"):
            lo, hi = self.T.int_range(tid)
        elif k == "dur": lo, hi = 0, U64MAX * 10**9 + 999999999
        elif k == "time": lo, hi = -(1 << 63) * 10**9, I64MAX * 10**9 + 999999999
        else: return
        if term.get_id() in st.ranged: return
        st.ranged.add(term.get_id()); st.keep.append(term)
        st.add(z3.And(term >= lo, term <= hi))

    def sym(self, st, tid, name="s"):
        T = self.T
        k = T.kind(tid)
        t = T.t[tid]
        if k in ("int", "bool", "char", "float", "str", "time", "dur", "opaque", "enum", "param"):
            v = fresh(T.sort(tid), name)
            self.rng(st, v, tid)
            return v
        if k in ("struct", "tuple"):
            if k == "struct" and any(f[1] < 0 for f in t["variants"][0]["fields"]): return fresh(z3.DeclareSort("Opq<%s>" % t["name"]), name)
            return Adt(tid, 0, [self.sym(st, f, "%s.%d" % (name, i)) for i, f in enumerate(T.fields(tid))])
        if k == "box": 
            a = T.arg(tid, 0)
            return fresh(T.sort(tid), name) if T.is_dyn(a) else self.sym(st, a, name)
        if k == "vec": return self.sym_vec(st, T.arg(tid, 0), name)
        if k == "slice": return self.sym_vec(st, t["elem"], name)
        if k == "array":
            v = self.sym_vec(st, t["elem"], name)
            st.add(v.len == t["len"])
            return v
        if k == "hmap":
            kt, vt = T.arg(tid, 0), T.arg(tid, 1)
            m = MapV(kt, vt, fresh(z3.ArraySort(T.sort(kt), T.opt(vt)[0]), name + ".map"), fresh(IntS, name + ".mlen"))
            st.add(m.len >= 0); st.add(m.len <= I64MAX)
            return m
        if k == "ref":
            if T.is_dyn(t["to"]): return fresh(T.sort(tid), name)
            return self.ref_to(st, self.sym(st, t["to"], name))
        if k == "never": raise Unsupported("value of type !")
        return fresh(z3.DeclareSort("Opq<%s>" % t["name"]), name)

    def sym_vec(self, st, ety, name):
        v = VecV(ety, fresh(z3.ArraySort(IntS, self.T.sort(ety)), name + ".arr"), fresh(IntS, name + ".len"))
        st.add(v.len >= 0); st.add(v.len <= I64MAX)
        return v

    # ---------------------------------------------------------------- encode / decode
    def encode(self, st, v, tid):
        T = self.T
        k = T.kind(tid)
        t = T.t[tid]
        if is_t(v): return v
        if k == "ref":
            if isinstance(v, Ref): return self.encode(st, self.read(st, v, t["to"]), t["to"])
            raise Unsupported("encode ref")
        if k == "box" : return self.encode(st, v, T.arg(tid, 0))
        if k == "transp": return self.encode(st, v, T.arg(tid, 0))
        if isinstance(v, VecV):
            ln, ar, mk = T.vec_fns(v.ety)
            if is_t(v.arr) and v.arr.decl() == ar and v.len.decl() == ln and v.arr.arg(0).eq(v.len.arg(0)): return v.arr.arg(0)
            r = mk(v.len, v.arr)
            if r.get_id() not in st.ranged:
                st.ranged.add(r.get_id()); st.keep.append(r)
                st.add(z3.And(ln(r) == v.len, ar(r) == v.arr))
            return r
        if isinstance(v, MapV):
            ln, ar, mk = T.map_fns(v.kty, v.vty)
            if v.arr.decl() == ar and v.len.decl() == ln and v.arr.arg(0).eq(v.len.arg(0)): return v.arr.arg(0)
            r = mk(v.len, v.arr)
            if r.get_id() not in st.ranged:
                st.ranged.add(r.get_id()); st.keep.append(r)
                st.add(z3.And(ln(r) == v.len, ar(r) == v.arr))
            return r
        if isinstance(v, Adt):
            if k in ("slice", "array", "vec"):
                return self.encode(st, self.to_vec(st, v), tid)
            s = T.sort(tid)
            if not isinstance(s, z3.DatatypeSortRef): raise Unsupported("encode %s" % T.name(tid))
            fs = [self.encode(st, x, ft) for x, ft in zip(v.f, T.fields(tid, v.var))]
            if fs:
                d0 = fs[0]
                if d0.num_args() == 1 and d0.decl().eq(s.accessor(v.var, 0)):
                    o = d0.arg(0)
                    if all(f.num_args() == 1 and f.decl().eq(s.accessor(v.var, i)) and f.arg(0).eq(o) for i, f in enumerate(fs)): 
                        if len(T.variants(tid)) == 1 if k != "tuple" else True: return o
                        if st.known.get(o.get_id()) == v.var: return o
            return s.constructor(v.var)(*fs)
        raise Unsupported("encode %r as %s" % (v, T.name(tid)))

    def decode(self, st, term, tid):
        """structured view of a term (one level; enums stay terms)"""
        T = self.T
        if not is_t(term): return term
        k = T.kind(tid)
        t = T.t[tid]
        if k in ("int", "char", "time", "dur"):
            self.rng(st, term, tid)
            return term
        if k in ("bool", "float", "str", "opaque"): return term
        if k == "box":
            a = T.arg(tid, 0)
            return term if T.is_dyn(a) else self.decode(st, term, a)
        if k == "transp": return self.decode(st, term, T.arg(tid, 0))
        if k == "ref":
            if T.is_dyn(t["to"]): return term
            return self.ref_to(st, self.decode(st, term, t["to"]))
        if k in ("vec", "slice", "array"):
            ety = T.arg(tid, 0) if k == "vec" else t["elem"]
            ln, ar, mk = T.vec_fns(ety)
            if term.decl().eq(mk): return VecV(ety, term.arg(1), term.arg(0))
            L = ln(term)
            if L.get_id() not in st.ranged:
                st.ranged.add(L.get_id()); st.keep.append(L)
                st.add(z3.And(L >= 0, L <= I64MAX))
            return VecV(ety, ar(term), L)
        if k == "hmap":
            kt, vt = T.arg(tid, 0), T.arg(tid, 1)
            ln, ar, mk = T.map_fns(kt, vt)
            if term.decl().eq(mk): return MapV(kt, vt, term.arg(1), term.arg(0))
            L = ln(term)
            if L.get_id() not in st.ranged:
                st.ranged.add(L.get_id()); st.keep.append(L)
                st.add(z3.And(L >= 0, L <= I64MAX))
            return MapV(kt, vt, ar(term), L)
        if k in ("struct", "tuple"):
            s = T.sort(tid)
            if not isinstance(s, z3.DatatypeSortRef): return term
            return Adt(tid, 0, [self.decode(st, simp(s.accessor(0, i)(term)), f) for i, f in enumerate(T.fields(tid))])
        if k == "enum":
            s = T.sort(tid)
            for i in range(s.num_constructors()):
                if term.decl().eq(s.constructor(i)):
                    return Adt(tid, i, [self.decode(st, term.arg(j), f) for j, f in enumerate(T.fields(tid, i))])
            return term
        return term

    def downcast(self, st, v, tid, var):
        if isinstance(v, Adt):
            if v.var != var: raise Unsupported("downcast of wrong variant")
            return v
        if is_t(v):
            s = self.T.sort(tid)
            if not isinstance(s, z3.DatatypeSortRef): raise Unsupported("downcast of %s" % self.T.name(tid))
            st.known[v.get_id()] = var; st.keep.append(v)
            return Adt(tid, var, [self.decode(st, s.accessor(var, j)(v), f) for j, f in enumerate(self.T.fields(tid, var))])
        raise Unsupported("downcast of %r" % (v,))

    def to_vec(self, st, v):
        """array literal (Adt) -> VecV"""
        if isinstance(v, VecV): return v
        if isinstance(v, Adt):
            t = self.T.t[v.ty]
            if t["k"] in ("array", "slice"):
                es = self.T.sort(t["elem"])
                a = self.T.empty(t["elem"])
                for i, x in enumerate(v.f): a = z3.Store(a, i, self.encode(st, x, t["elem"]))
                return VecV(t["elem"], a, iv(len(v.f)))
        raise Unsupported("not a sequence: %r" % (v,))

    # ---------------------------------------------------------------- places
    # path elements: ('f',i,tid_of_container or None) ('v',variant,tid) ('i',index) ('k',key) ('s',lo,hi)
    def get_path(self, st, v, path):
        n = 0
        while n < len(path):
            e = path[n]
            k = e[0]
            if k == "f":
                if isinstance(v, Adt): v = v.f[e[1]]
                elif is_t(v):
                    tid = e[2]
                    d = self.decode(st, v, tid)
                    if not isinstance(d, Adt): raise Unsupported("field %s of opaque %s" % (e[1], self.T.name(tid)))
                    v = d.f[e[1]]
                elif v is UNINIT: raise Unsupported("read of uninitialised field")
                else: raise Unsupported("field of %r" % (v,))
            elif k == "v":
                v = self.downcast(st, v, e[2], e[1])
            elif k == "i":
                if isinstance(v, Adt):
                    ix = simp(e[1])
                    if z3.is_int_value(ix): v = v.f[ix.as_long()]
                    else:
                        v = self.to_vec(st, v)
                        v = self.decode(st, z3.Select(v.arr, e[1]), v.ety)
                else:
                    if not isinstance(v, VecV): raise Unsupported("index of %r" % (v,))
                    v = self.decode(st, simp(z3.Select(v.arr, e[1])), v.ety)
            elif k == "k":
                if not isinstance(v, MapV): raise Unsupported("key of %r" % (v,))
                o = self.T.opt(v.vty)
                v = self.decode(st, simp(o[4](z3.Select(v.arr, e[1]))), v.vty)
            elif k == "s":
                v = self.to_vec(st, v)
                lo, hi = e[1], e[2]
                if n + 1 < len(path) and path[n + 1][0] == "i":
                    v = self.decode(st, simp(z3.Select(v.arr, path[n + 1][1] + lo)), v.ety)
                    n += 1
                elif z3.is_int_value(lo) and lo.as_long() == 0:
                    v = VecV(v.ety, v.arr, simp(hi - lo))
                else:
                    i = z3.Int("slice_i")
                    v = VecV(v.ety, z3.Lambda([i], z3.Select(v.arr, i + lo)), simp(hi - lo))
            else: raise Unsupported("path %r" % (e,))
            n += 1
        return v

    def set_path(self, st, v, path, new, n=0):
        if n == len(path): return new
        e = path[n]
        k = e[0]
        if k == "f":
            if v is UNINIT:
                nf = len(self.T.fields(e[2])) if e[2] is not None else e[1] + 1
                v = Adt(e[2], 0, [UNINIT] * nf)
            if is_t(v): v = self.decode(st, v, e[2])
            if not isinstance(v, Adt): raise Unsupported("set field of %r" % (v,))
            f = list(v.f)
            f[e[1]] = self.set_path(st, f[e[1]], path, new, n + 1)
            return Adt(v.ty, v.var, f)
        if k == "v":
            if v is UNINIT: v = Adt(e[2], e[1], [UNINIT] * len(self.T.fields(e[2], e[1])))
            elif isinstance(v, Adt) and v.var != e[1]: v = Adt(e[2], e[1], [UNINIT] * len(self.T.fields(e[2], e[1])))
            else: v = self.downcast(st, v, e[2], e[1])
            return self.set_path(st, v, path, new, n + 1)
        if k == "i":
            if isinstance(v, Adt):
                ix = simp(e[1])
                if z3.is_int_value(ix):
                    f = list(v.f)
                    f[ix.as_long()] = self.set_path(st, f[ix.as_long()], path, new, n + 1)
                    return Adt(v.ty, v.var, f)
                v = self.to_vec(st, v)
            if not isinstance(v, VecV): raise Unsupported("set index of %r" % (v,))
            old = self.decode(st, simp(z3.Select(v.arr, e[1]))  , v.ety) if n + 1 < len(path) else None
            x = self.set_path(st, old, path, new, n + 1)
            return VecV(v.ety, z3.Store(v.arr, e[1], self.encode(st, x, v.ety)), v.len)
        if k == "s":
            if n + 1 < len(path) and path[n + 1][0] == "i":
                p2 = list(path[:n]) + [("i", path[n + 1][1] + e[1])] + list(path[n + 2:])
                return self.set_path(st, v, p2, new, n)
            raise Unsupported("write to slice")
        if k == "k":
            o = self.T.opt(v.vty)
            old = self.decode(st, simp(o[4](z3.Select(v.arr, e[1]))), v.vty) if n + 1 < len(path) else None
            x = self.set_path(st, old, path, new, n + 1)
            return MapV(v.kty, v.vty, z3.Store(v.arr, e[1], o[2](self.encode(st, x, v.vty))), v.len)
        raise Unsupported("set path %r" % (e,))

    def read(self, st, ref, tid=None):
        if is_t(ref): return ref
        if not isinstance(ref, Ref): raise Unsupported("deref of %r" % (ref,))
        if ref.cell not in st.cells: raise Unsupported("dangling reference")
        return self.get_path(st, st.cells[ref.cell], ref.path)

    def write(self, st, ref, v):
        if not isinstance(ref, Ref): raise Unsupported("write through %r" % (ref,))
        st.cells[ref.cell] = self.set_path(st, st.cells.get(ref.cell, UNINIT), ref.path, v)

    BOXINT = ("std::boxed::BoxRaw", "std::ptr::Unique", "core::ptr::unique::Unique", "std::ptr::NonNull", "core::ptr::Unique")

    def local_cell(self, st, fr, l):
        c = fr.loc.get(l)
        if c is None:
            ty = fr.inst["locals"][l]
            v = UNINIT
            t = self.T.t[ty]
            if t["k"] in ("closure", "fndef") or (t["k"] == "adt" and t["variants"] and t["adt"] == "struct" and not t["variants"][0]["fields"]) or (t["k"] == "tuple" and not t["fields"]):
                v = self.zst(ty)
            c = self.new_cell(st, v)
            fr.loc[l] = c
        return c

    def zst(self, ty):
        t = self.T.t[ty]
        if t["k"] == "fndef": return FnV(ty)
        if t["k"] == "closure": return Adt(ty, 0, [UNINIT] * len(t["upvars"]))
        return Adt(ty, 0, [])

    def place(self, st, fr, p):
        """-> (Ref, tid, boxptr?)"""
        T = self.T
        cell = self.local_cell(st, fr, p["l"])
        ty = fr.inst["locals"][p["l"]]
        path = ()
        state = None      # of a coroutine: its saved variables
        virt = False      # inside Box internals: the path still denotes the boxed value
        var = 0
        for e in p["p"]:
            k = e[0]
            if k == "f":
                tk = T.kind(ty)
                if state is not None:
                    t0 = T.t[ty]
                    path, ty, state = path + (("f", len(t0["upvars"]) + t0["states"][state][e[1]], ty),), e[2], None
                    continue
                if tk == "box" or (virt and T.t[ty]["k"] == "adt"):
                    virt = True
                    if tk == "box" and e[1] != 0: raise Unsupported("box allocator field")
                    ty = e[2]
                    continue
                if virt: raise Unsupported("field inside box internals")
                if tk == "transp" or (T.t[ty]["k"] == "adt" and T.t[ty]["path"].endswith("MaybeDangling")):
                    ty = e[2]
                    continue
                path = path + (("f", e[1], ty),) if not (path and path[-1][0] == "v" and path[-1][3:] == ("pend",)) else path + (("f", e[1], None),)
                ty = e[2]
            elif k == "d":
                if virt or T.kind(ty) == "box":
                    # dereference of a box: the boxed value is stored in place
                    t0 = T.t[ty]
                    if T.kind(ty) == "box": ty = T.arg(ty, 0)
                    elif "to" in t0: ty = t0["to"]
                    else: raise Unsupported("deref of box internals")
                    virt = False
                    continue
                r = self.get_path(st, st.cells[cell], path)
                to = T.t[ty].get("to")
                if to is None: raise Unsupported("deref of %s" % T.name(ty))
                if isinstance(r, Ref):
                    cell, path = r.cell, r.path
                    if cell not in st.cells: raise Unsupported("dangling reference")
                elif is_t(r):
                    cell, path = self.new_cell(st, self.decode(st, r, to)), ()
                else: raise Unsupported("deref of %r" % (r,))
                ty = to
            elif k == "v":
                if T.kind(ty) == "coroutine":
                    state = e[1]
                    continue
                path = path + (("v", e[1], ty),)
            elif k == "i":
                ix = self.get_path(st, st.cells[self.local_cell(st, fr, e[1])], ())
                path = path + (("i", ix),)
                ty = T.t[ty].get("elem", T.arg(ty, 0) if T.t[ty]["k"] == "adt" else None)
            elif k == "c":
                if e[3]:
                    v = self.get_path(st, st.cells[cell], path)
                    L = self.seq_len(st, v)
                    path = path + (("i", simp(L - e[1])),)
                else: path = path + (("i", iv(e[1])),)
                ty = T.t[ty]["elem"]
            elif k == "s":
                v = self.get_path(st, st.cells[cell], path)
                L = self.seq_len(st, v)
                path = path + (("s", iv(e[1]), simp(L - e[2]) if e[3] else iv(e[2])),)
            elif k == "o": pass
            else: raise Unsupported("projection %r" % (e,))
        return Ref(cell, path), ty, virt

    def seq_len(self, st, v):
        if isinstance(v, VecV): return v.len
        if isinstance(v, Adt) and self.T.t[v.ty]["k"] in ("array", "slice"): return iv(len(v.f))
        raise Unsupported("length of %r" % (v,))

    # ---------------------------------------------------------------- operands
    def const(self, st, c):
        T = self.T
        k = c["k"]
        if k == "int":
            tk = T.kind(c["ty"])
            if tk == "bool": return z3.BoolVal(c["v"] != "0")
            if tk == "float": return z3.Const("f32bits:%s" % c["v"], FloatS)
            return iv(int(c["v"]))
        if k == "str": return self.ref_to(st, self.lit(c["v"]))
        if k == "zst": return self.zst(c["ty"])
        if k == "bytes":
            t = T.t[c["ty"]]
            to = t["to"]
            return self.ref_to(st, Adt(to, 0, [iv(b) for b in c["v"]]))
        if k == "ref": return self.ref_to(st, self.const(st, c["v"]))
        if k == "agg":
            return Adt(c["ty"], c["variant"], [self.const(st, x) for x in c["fields"]]) if T.kind(c["ty"]) not in ("dur", "time") else self.const_time(st, c)
        if k == "opaque":
            tk = T.t[c["ty"]]["k"]
            if tk == "fndef": return FnV(c["ty"])
            t = T.t[c["ty"]]
            if tk in ("adt", "tuple") and not (t.get("variants") and t["variants"][0]["fields"]) : return Opq("const", s=c["s"], ty=c["ty"])
            return Opq("const", s=c["s"], ty=c["ty"])
        raise Unsupported("constant %r" % (c,))

    def const_time(self, st, c):
        fs = [self.const(st, x) for x in c["fields"]]
        flat = []
        def walk(v):
            if isinstance(v, Adt):
                for x in v.f: walk(x)
            elif isinstance(v, Opq) and v.kind == "const" and re.fullmatch(r"Scalar\(0x[0-9a-f]+\)", v.d["s"]): flat.append(iv(int(v.d["s"][7:-1], 16)))
            else: flat.append(v)
        for f in fs: walk(f)
        if len(flat) == 2 and all(z3.is_int_value(x) for x in flat): return iv(flat[0].as_long() * 10**9 + flat[1].as_long())
        raise Unsupported("time constant %r %r" % (c, flat))

    def operand(self, st, fr, o):
        k = o["k"]
        if k in ("copy", "move"):
            r, ty, virt = self.place(st, fr, o["p"])
            if virt: return r
            v = self.get_path(st, st.cells[r.cell], r.path)
            return v
        if k == "const": return self.const(st, o["c"])
        if k == "rtcheck": return z3.BoolVal(False) if "Overflow" not in o["w"] else z3.BoolVal(True)
        raise Unsupported("operand " + k)

    def op_ty(self, fr, o, st):
        if o["k"] in ("copy", "move"): return self.place(st, fr, o["p"])[1]
        if o["k"] == "const": return o["c"]["ty"]
        return None

    # ---------------------------------------------------------------- rvalues
    def as_int(self, v):
        if isinstance(v, DiscrOf): return self.discr_int(v)
        return v

    def discr_int(self, d):
        s = self.T.sort(d.ty)
        vs = self.T.variants(d.ty)
        r = iv(int(vs[-1]["discr"]))
        for i in range(len(vs) - 2, -1, -1):
            r = z3.If(s.recognizer(i)(d.term), iv(int(vs[i]["discr"])), r)
        return r

    def wrap(self, t, tid):
        lo, hi = self.T.int_range(tid)
        n = hi - lo + 1
        t = simp(t)
        if z3.is_int_value(t):
            return iv((t.as_long() - lo) % n + lo)
        return z3.If(z3.And(t >= lo, t <= hi), t, (t - lo) % n + lo)

    def binop(self, st, op, a, b, ta, tb):
        T = self.T
        a, b = self.as_int(a), self.as_int(b)
        if op in ("Eq", "Ne"):
            if not (is_t(a) and is_t(b)):
                if isinstance(a, Adt) and isinstance(b, Adt): a, b = self.encode(st, a, ta), self.encode(st, b, tb)
                else: raise Unsupported("compare %r %r" % (a, b))
            if T.kind(ta) == "float":
                f = z3.Function("feq", FloatS, FloatS, BoolS)
                r = f(a, b)
            else: r = a == b
            return r if op == "Eq" else z3.Not(r)
        if not (is_t(a) and is_t(b)): raise Unsupported("arith on %r %r" % (a, b))
        k = T.kind(ta)
        if k == "float":
            if op in ("Lt", "Le", "Gt", "Ge"): return z3.Function("f" + op, FloatS, FloatS, BoolS)(a, b)
            return z3.Function("f" + op, FloatS, FloatS, FloatS)(a, b)
        if op in ("BitOr", "BitAnd", "BitXor") and z3.is_bool(a):
            return {"BitOr": z3.Or(a, b), "BitAnd": z3.And(a, b), "BitXor": z3.Xor(a, b)}[op]
        if z3.is_bool(a):
            a = z3.If(a, iv(1), iv(0)); b = z3.If(b, iv(1), iv(0))
        if op == "Lt": return a < b
        if op == "Le": return a <= b
        if op == "Gt": return a > b
        if op == "Ge": return a >= b
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            r = a + b if base == "Add" else a - b if base == "Sub" else a * b
            r = simp(r)
            if op.endswith("WithOverflow"):
                lo, hi = T.int_range(ta)
                return Adt(None, 0, [self.wrap(r, ta), z3.Not(z3.And(r >= lo, r <= hi))])
            if op.endswith("Unchecked"): return r
            return self.wrap(r, ta)
        if base in ("Div", "Rem"):
            signed = T.t[ta].get("signed")
            if not signed:
                if z3.is_int_value(simp(b)):
                    return a / b if base == "Div" else a % b
                f = z3.Function("u" + base, IntS, IntS, IntS)
                r = f(a, b)
                if base == "Rem": st.add(z3.Implies(b > 0, z3.And(r >= 0, r < b, z3.Implies(a < b, r == a))))
                else: st.add(z3.Implies(b > 0, z3.And(r >= 0, r <= a)))
                return r
            if z3.is_int_value(simp(b)) and simp(b).as_long() > 0:
                q = z3.If(a >= 0, a / b, -((-a) / b))
                return simp(q if base == "Div" else a - b * q)
            f = z3.Function("s" + base, IntS, IntS, IntS)
            r = f(a, b)
            self.rng(st, r, ta)
            return r
        f = z3.Function("op" + op, IntS, IntS, IntS)
        r = f(a, b)
        if z3.is_int_value(simp(a)) and z3.is_int_value(simp(b)):
            x, y = simp(a).as_long(), simp(b).as_long()
            if base == "BitAnd": return iv(x & y)
            if base == "BitOr": return iv(x | y)
            if base == "BitXor": return iv(x ^ y)
        bits = T.int_range(ta)[1].bit_length() if T.kind(ta) == "int" else 0
        if bits and base == "BitAnd" and not T.t[ta].get("signed"):
            # a mask of the low or of the high bits
            for x, m in ((a, simp(b)), (b, simp(a))):
                if not z3.is_int_value(m): continue
                m = m.as_long()
                if m & (m + 1) == 0: return simp(x % iv(m + 1))
                low = (1 << bits) - 1 - m
                if low & (low + 1) == 0: return simp(x - x % iv(low + 1))
        if bits and base in ("Shl", "Shr") and z3.is_int_value(simp(b)) and 0 <= simp(b).as_long() < bits:
            p = iv(1 << simp(b).as_long())
            return simp(a / p) if base == "Shr" else self.wrap(simp(a * p), ta)
        self.rng(st, r, ta)
        st.havoced = True
        return r

    def rvalue(self, st, fr, r, dty):
        T = self.T
        k = r["k"]
        if k == "use": return self.operand(st, fr, r["o"])
        if k in ("ref", "addr"):
            ref, ty, virt = self.place(st, fr, r["p"])
            if virt: raise Unsupported("address of box internals")
            return ref
        if k == "bin":
            a, b = self.operand(st, fr, r["a"]), self.operand(st, fr, r["b"])
            return self.binop(st, r["op"], a, b, self.op_ty(fr, r["a"], st), self.op_ty(fr, r["b"], st))
        if k == "un":
            a = self.operand(st, fr, r["o"])
            a = self.as_int(a)
            if r["op"] == "Not":
                if z3.is_bool(a): return z3.Not(a)
                ty = self.op_ty(fr, r["o"], st)
                if T.t[ty].get("signed"): return -a - 1
                return T.int_range(ty)[1] - a
            if r["op"] == "Neg":
                ty = self.op_ty(fr, r["o"], st)
                if T.kind(ty) == "float": return z3.Function("fneg", FloatS, FloatS)(a)
                return self.wrap(-a, ty)
            if r["op"] == "PtrMetadata":
                if isinstance(a, Ref): return self.seq_len(st, self.read(st, a))
            raise Unsupported("unop " + r["op"])
        if k == "discr":
            ref, ty, virt = self.place(st, fr, r["p"])
            v = self.read(st, ref)
            if isinstance(v, Adt):
                if T.kind(ty) == "enum": return iv(int(T.variants(ty)[v.var]["discr"]))
                if T.kind(ty) == "coroutine": return iv(v.var)
                return iv(0)
            if isinstance(v, Opq) and "discr" in v.d: return v.d["discr"]
            if is_t(v) and isinstance(v.sort(), z3.DatatypeSortRef): 
                kn = st.known.get(v.get_id())
                if kn is not None: return iv(int(T.variants(ty)[kn]["discr"]))
                return DiscrOf(v, ty)
            raise Unsupported("discriminant of %r: %s" % (v, T.name(ty)))
        if k == "agg":
            fs = [self.operand(st, fr, x) for x in r["f"]]
            ak = r["ak"]
            if ak == "tuple": return Adt(dty, 0, fs)
            if ak == "array": return Adt(dty, 0, fs)
            if ak == "adt":
                if T.kind(r["ty"]) in ("dur",): raise Unsupported("duration literal")
                if r["field"] >= 0: raise Unsupported("union")
                if T.kind(r["ty"]) == "transp": return fs[0]
                return Adt(r["ty"], r["variant"], fs)
            if ak in ("closure",): return Adt(r["ty"], 0, fs)
            if ak == "coroutine": return Adt(r["ty"], 0, fs + [UNINIT] * len(T.t[r["ty"]]["saved"]))
            if ak == "rawptr": return fs[0]
            raise Unsupported("aggregate " + ak)
        if k == "cast":
            a = self.operand(st, fr, r["o"])
            ck = r["ck"]
            src = self.op_ty(fr, r["o"], st)
            if ck.startswith("IntToInt"):
                a = self.as_int(a)
                if z3.is_bool(a): a = z3.If(a, iv(1), iv(0))
                sl = T.int_range(src) if T.kind(src) in ("int", "char") else None
                dl = T.int_range(r["ty"])
                if sl and sl[0] >= dl[0] and sl[1] <= dl[1]: return a
                if T.kind(src) in ("bool", "enum"): return a
                return self.wrap(a, r["ty"])
            if ck.startswith("PointerCoercion"):
                if "ClosureFnPointer" in ck or "ReifyFnPointer" in ck: return a if isinstance(a, (FnV, Adt)) else a
                return a
            if ck.startswith(("PtrToPtr", "BoxDeref", "Transmute", "PointerExpose")):
                if isinstance(a, (Ref, Opq)): return a
                if ck.startswith("Transmute"): 
                    if T.kind(src) == "box" or T.kind(r["ty"]) == "box": return a
                    if is_t(a) and T.sort(r["ty"]) == a.sort(): return a
                    if T.name(src) == T.name(r["ty"]): return a
                raise Unsupported("cast %s %s -> %s" % (ck, T.name(src), T.name(r["ty"])))
            if ck.startswith(("IntToFloat", "FloatToInt", "FloatToFloat")):
                s1, s2 = a.sort(), T.sort(r["ty"])
                x = z3.Function("cast:%s:%s" % (T.name(src), T.name(r["ty"])), s1, s2)(a)
                self.rng(st, x, r["ty"])
                return x
            raise Unsupported("cast " + ck)
        if k == "repeat":
            a = self.operand(st, fr, r["o"])
            t = T.t[dty]
            if r["n"] <= 8: return Adt(dty, 0, [a] * max(r["n"], 0))
            return VecV(t["elem"], z3.K(IntS, self.encode(st, a, t["elem"])), iv(r["n"]))
        raise Unsupported("rvalue " + k + " " + str(r.get("s", ""))[:80])

    # ---------------------------------------------------------------- solver
    def sync(self, pc):
        i = 0
        n = min(len(pc), len(self.sstack))
        while i < n and self.sstack[i] is pc[i]: i += 1
        d = len(self.sstack) - i
        if d: self.solver.pop(d); del self.sstack[i:]
        for c in pc[i:]:
            self.solver.push(); self.solver.add(c); self.sstack.append(c)

    def feasible(self, st, cond=None):
        t0 = time.time()
        self.sync(st.pc)
        r = self.solver.check(cond) if cond is not None else self.solver.check()
        self.stats["queries"] += 1; self.stats["time"] += time.time() - t0
        return r != z3.unsat

    def prove(self, st, goal, name, line="", extra=()):
        """Discharge pc /\\ quants => goal. Records an obligation."""
        import smt
        if self.mute: return True
        # enough counterexamples of one obligation are in hand: the rest adds nothing
        bad = self.bad_count.setdefault(name, [0, 0])
        if bad[0] >= 4 and not st.havoced and any(o.name == name and o.status == "failed" and not o.havoced for o in self.obls[-4000:]): return False
        res, model, how = smt.check(self, st, goal, extra, min(2, self.solve_timeout) if bad[1] >= 6 else None)
        if res == "unsat":
            self.obls.append(Obl(name, "discharged", how, line))
            return True
        if res == "sat" and not st.havoced: bad[0] += 1
        else: bad[1] += 1
        self.obls.append(Obl(name, "failed" if res == "sat" else "unknown", how, line, st.havoced, model, list(st.trace)))
        return False

    # ---------------------------------------------------------------- execution
    def call_inst(self, st, inst, args, dest, ret):
        """push a frame"""
        self.fuid += 1
        if len(st.frames) > 60: raise Unsupported("call depth")
        f = Frame(inst, dest, ret, self.fuid)
        argc = inst["argc"]
        if inst["kind"] in ("closure", "closure_once") and len(args) == 2 and isinstance(args[1], Adt) and inst["spread"] < 0:
            args = [args[0]] + list(args[1].f)      # rust-call: the callee takes the arguments one by one
        if len(args) != argc: raise Unsupported("arity of %s: %d/%d" % (inst["name"], len(args), argc))
        for i, a in enumerate(args):
            f.loc[i + 1] = self.new_cell(st, a)
        st.frames.append(f)

    def start(self, inst, st, args):
        d = self.new_cell(st, UNINIT)
        self.call_inst(st, inst, args, Ref(d), -2)
        st.ghost["ret"] = d
        return st

    def run(self, st):
        work = [st]
        while work:
            if self.deadline and time.time() > self.deadline: raise Unsupported("time limit")
            s = work.pop()
            try:
                self.go(s, work)
            except Unsupported as e:
                self.undecided.append("%s (%s)" % (e, self.where(s)))
                if len(self.undecided) > 20: return
            except (AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError, z3.Z3Exception) as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                self.undecided.append("internal: %s: %s at %s:%d (%s)" % (type(e).__name__, e, tb.filename.rsplit("/", 1)[-1], tb.lineno, self.where(s)))
                if len(self.undecided) > 20: return

    def where(self, st):
        return " <- ".join("%s bb%d" % (f.inst["name"][:80], f.bb) for f in reversed(st.frames[-3:]))

    def go(self, st, work):
        while True:
            if not st.frames:
                self.finish(st, "return")
                return
            fr = st.frames[-1]
            b = fr.inst["blocks"][fr.bb]
            for s in b["st"]:
                if s["k"] == "assign":
                    p = s["p"]
                    dty = None
                    if not p["p"]: dty = fr.inst["locals"][p["l"]]
                    ref, ty, virt = self.place(st, fr, p)
                    if virt: raise Unsupported("write to box internals")
                    v = self.rvalue(st, fr, s["r"], dty if dty is not None else ty)
                    self.write(st, ref, v)
                elif s["k"] == "setdiscr":
                    ref, ty, _ = self.place(st, fr, s["p"])
                    v = self.read(st, ref)
                    if isinstance(v, Adt) and self.T.t[ty]["k"] == "coroutine": self.write(st, ref, Adt(v.ty, s["v"], v.f))
                    elif isinstance(v, Adt) and v.var != s["v"]: self.write(st, ref, Adt(ty, s["v"], [UNINIT] * len(self.T.fields(ty, s["v"]))))
                    elif not isinstance(v, Adt):
                        if v is UNINIT: self.write(st, ref, Adt(ty, s["v"], [UNINIT] * len(self.T.fields(ty, s["v"]))))
                        else: raise Unsupported("setdiscr")
                else:
                    raise Unsupported("statement " + str(s)[:80])
            t = b["t"]
            k = t["k"]
            if k in ("goto", "drop"):
                if k == "drop": self.on_drop(st, fr, t)
                if not self.jump(st, fr, t["t"], work): return
            elif k == "return":
                if not self.do_return(st, fr, work): return
            elif k == "unreachable":
                return
            elif k == "switch":
                if not self.switch(st, fr, t, work): return
            elif k == "assert":
                c = self.operand(st, fr, t["c"])
                if not t["e"]: c = z3.Not(c)
                c = simp(c)
                if not z3.is_true(c):
                    ok = True
                    if z3.is_false(c) or self.feasible(st, z3.Not(c)):
                        ok = self.prove(st, c, self.panic_tag + ": " + t["m"].split("(")[0].split("{")[0].strip(), t.get("s", ""))
                    elif not self.mute:
                        self.obls.append(Obl(self.panic_tag + ": " + t["m"].split("(")[0].split("{")[0].strip(), "discharged", "z3", t.get("s", "")))
                    if z3.is_false(c): return
                    st.add(c)
                if not self.jump(st, fr, t["t"], work): return
            elif k == "call":
                if not self.do_call(st, fr, t, work): return
            else:
                raise Unsupported("terminator " + str(t)[:100])

    def on_drop(self, st, fr, t): pass

    def jump(self, st, fr, target, work):
        import loops
        lp = mir.loop_info(fr.inst)
        if fr.cuts and loops.left(self, st, fr, target): return False
        if target in lp:
            r = loops.hook(self, st, fr, target, lp[target], work)
            if r is False: return False
            if r is True:
                fr.bb = target
                return True
            key = ("n", target)
            # entering from outside resets the count
            n = fr.cuts.get(key, 0)
            if fr.bb not in lp[target]: n = 0
            n += 1
            fr.cuts[key] = n
            if n > self.max_unroll: raise Unsupported("loop without invariant at %s bb%d" % (fr.inst["name"][:100], target))
            if n > 1: self.unrolled.add(fr.inst["name"])
        fr.bb = target
        return True

    def do_return(self, st, fr, work):
        v = st.cells.get(fr.loc.get(0)) if 0 in fr.loc else self.zst(fr.inst["locals"][0])
        if v is UNINIT:
            t = self.T.t[fr.inst["locals"][0]]
            if t["k"] == "tuple" and not t["fields"]: v = Adt(fr.inst["locals"][0], 0, [])
        st.frames.pop()
        for c in fr.loc.values(): st.cells.pop(c, None)
        self.write(st, fr.dest, v)
        if not st.frames: return True
        if fr.ret is None: return False
        return self.jump(st, st.frames[-1], fr.ret, work)

    def switch(self, st, fr, t, work):
        d = self.operand(st, fr, t["d"])
        T = self.T
        if isinstance(d, DiscrOf):
            s = T.sort(d.ty)
            vs = T.variants(d.ty)
            by = {int(v["discr"]): i for i, v in enumerate(vs)}
            opts = []
            used = set()
            for val, tgt in t["ts"]:
                i = by.get(int(val))
                if i is None: continue
                used.add(i)
                opts.append((s.recognizer(i)(d.term), tgt, i))
            rest = [i for i in range(len(vs)) if i not in used]
            if rest:
                if len(rest) == 1: opts.append((s.recognizer(rest[0])(d.term), t["o"], rest[0]))
                else: opts.append((z3.Not(z3.Or([s.recognizer(i)(d.term) for i in sorted(used)])), t["o"], None))
            # merge options with the same target? keep variants apart only if few share the target
            groups = {}
            for c, tgt, i in opts: groups.setdefault(tgt, []).append((c, i))
            opts = []
            for tgt, g in groups.items():
                if len(g) == 1: opts.append((g[0][0], tgt, g[0][1]))
                else: opts.append((z3.Or([x[0] for x in g]), tgt, None))
            live = []
            for c, tgt, i in opts:
                if self.is_unreachable(fr, tgt): continue
                if self.feasible(st, c): live.append((c, tgt, i))
            return self.branch(st, fr, live, work, t.get("s", ""), d.term)
        d = self.as_int(d)
        if not is_t(d): raise Unsupported("switch on %r" % (d,))
        d = simp(d)
        if z3.is_bool(d):
            zero = None
            for val, tgt in t["ts"]:
                if val == "0": zero = tgt
                elif val == "1": one = tgt
            one = t["o"]
            for val, tgt in t["ts"]:
                if val == "1": one = tgt
            if zero is None: zero = t["o"]
            if z3.is_true(d): return self.jump(st, fr, one, work)
            if z3.is_false(d): return self.jump(st, fr, zero, work)
            live = []
            if not self.is_unreachable(fr, one) and self.feasible(st, d): live.append((d, one, None))
            if not self.is_unreachable(fr, zero) and self.feasible(st, z3.Not(d)): live.append((z3.Not(d), zero, None))
            return self.branch(st, fr, live, work, t.get("s", ""), None)
        if z3.is_int_value(d):
            n = d.as_long()
            for val, tgt in t["ts"]:
                v = int(val)
                if v == n or v == n % (1 << 128): return self.jump(st, fr, tgt, work)
            return self.jump(st, fr, t["o"], work)
        live = []
        for val, tgt in t["ts"]:
            v = int(val)
            c = d == v
            if not self.is_unreachable(fr, tgt) and self.feasible(st, c): live.append((c, tgt, None))
        c = z3.And([d != int(v) for v, _ in t["ts"]])
        if not self.is_unreachable(fr, t["o"]) and self.feasible(st, c): live.append((c, t["o"], None))
        return self.branch(st, fr, live, work, t.get("s", ""), None)

    def is_unreachable(self, fr, bb):
        b = fr.inst["blocks"][bb]
        return b["t"]["k"] == "unreachable" and not b["st"]

    def branch(self, st, fr, live, work, line, dterm):
        if not live: return False
        states = [st] + [st.copy() for _ in live[1:]]
        for s in states[1:]: s.frames = s.frames
        self.npaths += len(live) - 1
        if self.npaths > self.max_paths: raise Unsupported("too many paths")
        for s, (c, tgt, var) in list(zip(states, live))[1:]:
            self.take(s, c, tgt, var, line, dterm, work)
        c, tgt, var = live[0]
        st.add(c)
        if len(live) > 1: st.trace.append((line, c))
        if var is not None and dterm is not None:
            st.known[dterm.get_id()] = var; st.keep.append(dterm)
        return self.jump(st, fr, tgt, work)

    def take(self, s, c, tgt, var, line, dterm, work):
        s.add(c)
        s.trace.append((line, c))
        if var is not None and dterm is not None:
            s.known[dterm.get_id()] = var; s.keep.append(dterm)
        try:
            if self.jump(s, s.frames[-1], tgt, work): work.append(s)
        except Unsupported as e:
            self.undecided.append("%s (%s)" % (e, self.where(s)))

    # ---------------------------------------------------------------- calls
    def find_model(self, name, defn):
        key = (name, defn)
        if key in self.mcache: return self.mcache[key]
        r = None
        for rx, fn in self.models:
            if rx.fullmatch(name) or rx.fullmatch(defn): r = fn; break
        self.mcache[key] = r
        return r

    def do_call(self, st, fr, t, work):
        T = self.T
        line = t.get("s", "")
        f = None
        fty = T.t[t["fty"]]
        args = [self.operand(st, fr, a) for a in t["a"]]
        if fty["k"] == "fndef":
            cal = fty["callee"]
        else:
            fv = self.operand(st, fr, t["f"])
            if isinstance(fv, FnV): cal = T.t[fv.ty]["callee"]
            else: raise Unsupported("indirect call")
        return self.call_callee(st, fr, cal, args, t["aty"], t["d"], t["dty"], t["t"], line, work)

    def call_callee(self, st, fr, cal, args, atys, dplace, dty, target, line, work):
        T = self.T
        inst = self.c.insts[cal["inst"]] if cal["inst"] >= 0 else None
        name = inst["name"] if inst else cal["def"]
        defn = inst["def"] if inst else cal["def"]
        m = self.find_model(name, defn)
        cx = Cx(name, defn, cal, inst, atys, dty, line, target)
        if m is not None:
            self.modelled.add(defn)
            res = m(self, st, args, cx)
            if res is NotImplemented: m = None
        if m is None:
            if cal.get("shim", -1) >= 0:
                inst = self.c.insts[cal["shim"]]
                name = inst["name"]
            if inst is not None and "blocks" in inst:
                ref, _, _ = self.place(st, fr, dplace)
                self.inlined.add(name)
                self.call_inst(st, inst, args, ref, target if target >= 0 else None)
                return True
            res = self.constructor(name, args, dty)
            if res is None: raise Unsupported("no model for %s" % name)
        return self.finish_call(st, fr, res, dplace, target, line, work)

    def constructor(self, name, args, dty):
        """a tuple struct or variant used as a function"""
        t = self.T.t[dty]
        if t["k"] != "adt" or not t.get("variants"): return None
        path = re.sub(r"::<.*?>$", "", re.sub(r"<.*>", "", name))
        for i, v in enumerate(t["variants"]):
            want = t["path"] + ("" if t["adt"] == "struct" else "::" + v["name"])
            if path.replace("::::", "::") == want and len(v["fields"]) == len(args) and self.T.kind(dty) in ("struct", "enum"): return Adt(dty, i, args)
        return None

    def finish_call(self, st, fr, res, dplace, target, line, work):
        if res is None: res = []          # no return: diverges
        if not isinstance(res, list): res = [(None, res)]
        live = []
        for c, v in res:
            if c is not None:
                c = simp(c)
                if z3.is_false(c): continue
                if z3.is_true(c): c = None
            if isinstance(v, Panic):
                if c is not None and not self.feasible(st, c):
                    if not self.mute: self.obls.append(Obl(self.panic_tag + ": " + v.why, "discharged", "z3", line))
                    continue
                s2 = st if c is None and len(res) == 1 else st.copy()
                s2.add(c)
                self.panic(s2, v.why, line)
                if c is not None: st.pc.append(z3.Not(c))
                continue
            if c is None or self.feasible(st, c): live.append((c, v))
        if not live: return False
        states = [st] + [st.copy() for _ in live[1:]]
        self.npaths += len(live) - 1
        if self.npaths > self.max_paths: raise Unsupported("too many paths")
        out = False
        for s, (c, v) in reversed(list(zip(states, live))):
            if c is not None:
                s.add(c)
                if len(live) > 1: s.trace.append((line, c))
            f2 = s.frames[-1]
            if callable(v): v = v(s)
            if isinstance(v, Invoke):
                # continue by calling another function
                ref, _, _ = self.place(s, f2, dplace)
                if v.dest is not None:
                    # the callee's result goes elsewhere; the call itself yields v.value
                    self.write(s, ref, v.value)
                    ref = v.dest
                self.call_inst(s, v.inst, v.args, ref, target if target >= 0 else None)
                if s is st: out = True
                else: work.append(s)
                continue
            if v is DIVERGE: continue
            ref, _, _ = self.place(s, f2, dplace)
            self.write(s, ref, v)
            if target < 0: continue
            if s is st: out = self.jump(s, f2, target, work)
            else:
                try:
                    if self.jump(s, f2, target, work): work.append(s)
                except Unsupported as e:
                    self.undecided.append("%s (%s)" % (e, self.where(s)))
        return out

    def record(self, st, name, ok, line=""):
        if not self.mute: self.obls.append(Obl(name, "discharged" if ok else "failed", "z3", line, st.havoced))

    def soft(self, why):
        """something required was not established: undecided, never an alarm"""
        if not self.mute: self.undecided.append(why)

    def result_used(self, st, cx):
        """is the destination of the current call read afterwards?  (only an optimisation)"""
        fr = st.frames[-1]
        t = fr.inst["blocks"][fr.bb]["t"]
        if t["k"] != "call" or t["d"]["p"] or t["t"] < 0: return True
        return t["d"]["l"] in mir.liveness(fr.inst)[t["t"]]

    def panic(self, st, why, line):
        """reaching this point is a panic: must be infeasible"""
        if self.mute: return DIVERGE
        if not self.feasible(st):
            self.obls.append(Obl(self.panic_tag + ": " + why, "discharged", "z3", line))
            return DIVERGE
        self.prove(st, z3.BoolVal(False), self.panic_tag + ": " + why, line)
        return DIVERGE

    def finish(self, st, how):
        self.npaths += 0
        if self.on_done: self.on_done(self, st)


class _D: pass
DIVERGE = _D()


class Panic:
    def __init__(self, why): self.why = why


class Invoke:
    def __init__(self, inst, args, dest=None, value=None): self.inst, self.args, self.dest, self.value = inst, args, dest, value


class Cx:
    __slots__ = ("name", "defn", "cal", "inst", "atys", "dty", "line", "target")
    def __init__(self, name, defn, cal, inst, atys, dty, line, target):
        self.name, self.defn, self.cal, self.inst, self.atys, self.dty, self.line, self.target = name, defn, cal, inst, atys, dty, line, target
