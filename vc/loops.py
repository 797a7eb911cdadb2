"""Loop invariants: the leaves of the state a loop changes are discovered by executing its body,
candidate invariants (generic templates and the ones a contract supplies) are pruned to an inductive
set, and the loop is then cut: entry establishes the invariant, the body preserves it, the code after
the loop only knows the invariant."""
import z3, os, time
import mir, smt
from core import *

DEBUG = os.environ.get("VC_LOOPS")


class Rec:
    __slots__ = ("mode", "arrivals", "body", "header", "cands", "snap", "leaves", "measures", "name", "uid", "facts", "flags")
    def __init__(self): self.arrivals, self.flags = [], []


class Leaf:
    """kind: int bool vec map term iter ref ghost"""
    __slots__ = ("key", "kind", "tid", "name")
    def __init__(self, key, kind, tid, name): self.key, self.kind, self.tid, self.name = key, kind, tid, name
    def __repr__(self): return "Leaf(%s %s)" % (self.kind, self.name)


class Snap:
    """values of the changed leaves at one point"""
    def __init__(self, ex, st, leaves):
        self.ex, self.st, self.leaves = ex, st, leaves
        self.v = {}
        for l in leaves:
            self.v[l.key] = get_leaf(ex, st, l)
    def __getitem__(self, l): return simp(self.v[l.key] + l.off) if isinstance(l, Abs) else self.v[l.key]


class Abs(Leaf):
    """the position of an iterator over a part of a sequence, counted from the start of the sequence"""
    def __init__(self, l, off): Leaf.__init__(self, l.key, l.kind, l.tid, l.name); self.off = off


def positions(L):
    """the integers a loop changes"""
    out = []
    for l in L.ints:
        if l.key[0] != "g" and l.key[1] and l.key[1][-1] == ("iterpos",):
            it = get_leaf(L.ex, L.st, Leaf((l.key[0], l.key[1][:-1]), "iter", None, ""))
            if isinstance(it.seq, Ref) and it.seq.path and it.seq.path[-1][0] == "s": l = Abs(l, it.seq.path[-1][1])
        out.append(l)
    return out


def get_leaf(ex, st, l):
    if l.key[0] == "g": return st.ghost[l.key[1]]
    v = st.cells.get(l.key[0], UNINIT)
    for e in l.key[1]:
        if e[0] == "iterpos": v = v.pos
        elif e[0] == "refidx": v = v.path[e[1]][1]
        elif isinstance(v, Adt): v = v.f[e[1]]
        elif e[0] == "f" : v = ex.get_path(st, v, (e,))
        else: raise Unsupported("leaf path")
    return v


def set_leaf(ex, st, l, new):
    if l.key[0] == "g":
        st.ghost[l.key[1]] = new
        return
    def rec(v, path):
        if not path: return new
        e = path[0]
        if e[0] == "iterpos": return Iter(v.kind, v.seq, new, v.end, v.ety)
        if e[0] == "refidx":
            p = list(v.path); p[e[1]] = ("i", new)
            return Ref(v.cell, p)
        if isinstance(v, Adt):
            f = list(v.f); f[e[1]] = rec(f[e[1]], path[1:])
            return Adt(v.ty, v.var, f)
        raise Unsupported("leaf path")
    st.cells[l.key[0]] = rec(st.cells[l.key[0]], l.key[1])


def same(a, b):
    if a is b: return True
    if is_t(a) and is_t(b): return a.eq(b)
    if isinstance(a, Adt) and isinstance(b, Adt): return a.ty == b.ty and a.var == b.var and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, VecV) and isinstance(b, VecV): return a.arr.eq(b.arr) and a.len.eq(b.len)
    if isinstance(a, MapV) and isinstance(b, MapV): return a.arr.eq(b.arr) and a.len.eq(b.len)
    if isinstance(a, Ref) and isinstance(b, Ref): return a.cell == b.cell and len(a.path) == len(b.path) and all(samepath(x, y) for x, y in zip(a.path, b.path))
    if isinstance(a, Iter) and isinstance(b, Iter): return same(a.seq, b.seq) and same(a.pos, b.pos) and same(a.end, b.end)
    if isinstance(a, Opq) and isinstance(b, Opq):
        return a.kind == b.kind and set(a.d) == set(b.d) and all(same(a.d[k], b.d[k]) if not isinstance(a.d[k], (str, int)) else a.d[k] == b.d[k] for k in a.d)
    if isinstance(a, FnV) and isinstance(b, FnV): return a.ty == b.ty
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, int, type(None))) and isinstance(b, (str, int, type(None))): return a == b
    return False


def samepath(x, y):
    return len(x) == len(y) and all((p.eq(q) if is_t(p) and is_t(q) else (not is_t(p) and not is_t(q) and p == q)) for p, q in zip(x, y))


def diff(ex, cell, path, a, b, tid, name, out):
    """leaves at which a (loop head) and b (back edge) differ"""
    if same(a, b): return
    T = ex.T
    if a is UNINIT or b is UNINIT:
        if a is UNINIT and b is not UNINIT and tid is not None: out.append(Leaf((cell, path), "dead", tid, name)); return
        out.append(Leaf((cell, path), "dead", tid, name)); return
    if isinstance(a, Adt) and isinstance(b, Adt) and a.var == b.var and len(a.f) == len(b.f) and a.ty == b.ty:
        try: fs = T.fields(a.ty, a.var) if a.ty is not None else [None] * len(a.f)
        except Exception: fs = [None] * len(a.f)
        if len(fs) != len(a.f): fs = [None] * len(a.f)
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            diff(ex, cell, path + (("f", i, a.ty),), x, y, fs[i], "%s.%d" % (name, i), out)
        return
    if isinstance(a, Iter) and isinstance(b, Iter):
        if same(a.seq, b.seq) and same(a.end, b.end): out.append(Leaf((cell, path + (("iterpos",),)), "int", None, name + ".pos")); return
        raise Unsupported("loop changes an iterator's sequence")
    if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and len(a.path) == len(b.path):
        bad = [i for i, (x, y) in enumerate(zip(a.path, b.path)) if not samepath(x, y)]
        if all(a.path[i][0] == "i" and b.path[i][0] == "i" for i in bad):
            for i in bad: out.append(Leaf((cell, path + (("refidx", i),)), "int", None, name + ".ix"))
            return
        raise Unsupported("loop changes a reference")
    if isinstance(a, VecV) and isinstance(b, VecV): out.append(Leaf((cell, path), "vec", a.ety, name)); return
    if isinstance(a, MapV) and isinstance(b, MapV): out.append(Leaf((cell, path), "map", (a.kty, a.vty), name)); return
    if tid is None and is_t(a) and is_t(b) and a.sort() == b.sort():
        out.append(Leaf((cell, path), "bool" if z3.is_bool(a) else "int" if a.sort() == IntS else "term", None, name)); return
    if tid is not None:
        k = T.kind(tid)
        if k in ("int", "char", "time", "dur"): out.append(Leaf((cell, path), "int", tid, name)); return
        if k == "bool": out.append(Leaf((cell, path), "bool", tid, name)); return
        out.append(Leaf((cell, path), "val", tid, name)); return
    raise Unsupported("loop changes %r / %r" % (a, b))


def havoc(ex, st, l, base):
    v = get_leaf(ex, st, l) if l.kind != "dead" else None
    nm = "loop"
    if l.kind == "dead":
        new = UNINIT
    elif l.kind == "int":
        new = fresh(IntS, nm)
        if l.tid is not None: ex.rng(st, new, l.tid)
    elif l.kind == "bool": new = fresh(BoolS, nm)
    elif l.kind == "vec": new = ex.sym_vec(st, l.tid, nm)
    elif l.kind == "map":
        new = MapV(l.tid[0], l.tid[1], fresh(z3.ArraySort(ex.T.sort(l.tid[0]), ex.T.opt(l.tid[1])[0]), nm + ".map"), fresh(IntS, nm + ".mlen"))
        st.add(new.len >= 0); st.add(new.len <= I64MAX)
    elif l.kind == "term": new = fresh(v.sort(), nm)
    elif l.kind == "ghost": new = fresh(v.sort(), nm)
    elif l.kind == "val": new = ex.decode(st, fresh(ex.T.sort(l.tid), nm), l.tid)
    else: raise Unsupported("havoc " + l.kind)
    if l.kind == "dead" and l.key[0] != "g" and not l.key[1]:
        st.cells[l.key[0]] = UNINIT
    else: set_leaf(ex, st, l, new)


def local_types(st):
    """cell -> (type, name) for the locals of every frame"""
    out = {}
    for n, f in enumerate(st.frames):
        for l, c in f.loc.items():
            out[c] = (f.inst["locals"][l], "%d:_%d" % (n, l))
    return out


def cell_types(ex, st):
    """types of all cells, following references"""
    out = local_types(st)
    T = ex.T
    work = list(out)
    def walk(v, tid):
        if isinstance(v, Ref):
            to = T.t[tid].get("to") if tid is not None and T.t[tid]["k"] in ("ref", "ptr") else None
            if v.cell not in out and not v.path:
                out[v.cell] = (to, "heap%d" % v.cell); work.append(v.cell)
            elif v.cell not in out:
                out[v.cell] = (None, "heap%d" % v.cell); work.append(v.cell)
        elif isinstance(v, Adt):
            try: fs = T.fields(v.ty, v.var) if v.ty is not None else [None] * len(v.f)
            except Exception: fs = [None] * len(v.f)
            if len(fs) != len(v.f): fs = [None] * len(v.f)
            for x, t in zip(v.f, fs): walk(x, t)
        elif isinstance(v, Iter): walk(v.seq, None)
        elif isinstance(v, Opq):
            for x in v.d.values():
                if isinstance(x, (Ref, Adt, Iter, Opq)): walk(x, None)
    while work:
        c = work.pop()
        v = st.cells.get(c, UNINIT)
        t = out[c][0]
        if isinstance(v, (Ref, Adt, Iter, Opq)): walk(v, t)
    return out


def changed(ex, head, back):
    out = []
    tys = cell_types(ex, head)
    for c, v in head.cells.items():
        if c not in tys: continue
        w = back.cells.get(c, UNINIT)
        if v is UNINIT and w is not UNINIT:
            out.append(Leaf((c, ()), "dead", None, tys[c][1])); continue
        if w is UNINIT and v is not UNINIT:
            out.append(Leaf((c, ()), "dead", None, tys[c][1])); continue
        diff(ex, c, (), v, w, tys[c][0], tys[c][1], out)
    for k, v in head.ghost.items():
        if is_t(v) and k.startswith("g:"):
            w = back.ghost[k]
            if not v.eq(w): out.append(Leaf(("g", k), "bool" if z3.is_bool(v) else "int" if v.sort() == IntS else "ghost", None, k))
    return out


class Cand:
    __slots__ = ("name", "f")
    def __init__(self, name, f): self.name, self.f = name, f


class Loop:
    """what a contract sees of a loop"""
    def __init__(self, ex, st, fr, header, leaves, entry):
        self.ex, self.st, self.fr, self.header, self.leaves, self.entry = ex, st, fr, header, leaves, entry
        self.ints = [l for l in leaves if l.kind == "int"]
        self.bools = [l for l in leaves if l.kind == "bool"]
        self.vecs = [l for l in leaves if l.kind == "vec"]
        self.vals = [l for l in leaves if l.kind in ("val", "term", "ghost")]


def bounds_of(ex, st, leaves):
    """length-like terms that the loop does not change"""
    ch = {l.key for l in leaves}
    out, seen = [], set()
    def add(t):
        t = simp(t)
        if t.get_id() not in seen and len(out) < 12:
            seen.add(t.get_id()); out.append(t)
    def walk(v, cell, path, depth):
        if depth > 6: return
        if (cell, path) in ch: return
        if isinstance(v, VecV): add(v.len)
        elif isinstance(v, Iter):
            add(v.end)
        elif isinstance(v, Adt):
            # the end of a range of integers
            if v.ty is not None and ex.T.name(v.ty).startswith("std::ops::Range<") and len(v.f) == 2 and is_t(v.f[1]) and v.f[1].sort() == IntS: add(v.f[1])
            for i, x in enumerate(v.f): walk(x, cell, path + (("f", i, v.ty),), depth + 1)
    tys = cell_types(ex, st)
    for c in tys:
        if c in st.cells: walk(st.cells[c], c, (), 0)
    return out


def templates(ex, L):
    out = []
    e = L.entry
    bs = bounds_of(ex, L.st, L.leaves)
    for l in L.ints:
        x0 = e[l]
        out.append(Cand("%s>=entry" % l.name, lambda S, l=l, x0=x0: S[l] >= x0))
        for b in bs:
            out.append(Cand("%s<=%s" % (l.name, b), lambda S, l=l, b=b: S[l] <= b))
    num = [(l, lambda S, l=l: S[l]) for l in L.ints] + [(l, lambda S, l=l: S[l].len) for l in L.vecs]
    for i in range(len(num)):
        for j in range(i):
            (l1, f1), (l2, f2) = num[i], num[j]
            d = simp(f1(e) - f2(e))
            out.append(Cand("%s-%s const" % (l1.name, l2.name), lambda S, f1=f1, f2=f2, d=d: f1(S) - f2(S) == d))
    for l in L.vecs:
        n0 = e[l].len
        out.append(Cand("len %s>=entry" % l.name, lambda S, l=l, n0=n0: S[l].len >= n0))
        out.append(Cand("len %s<=entry" % l.name, lambda S, l=l, n0=n0: S[l].len <= n0))
        for b in bs: out.append(Cand("len %s<=%s" % (l.name, b), lambda S, l=l, b=b: S[l].len <= b))
    for l in L.bools:
        b0 = e[l]
        out.append(Cand("%s==entry" % l.name, lambda S, l=l, b0=b0: S[l] == b0))
    for l in L.leaves:
        if l.kind == "val":
            T = ex.T
            if T.kind(l.tid) == "enum":
                v0 = e[l]
                s = T.sort(l.tid)
                if isinstance(s, z3.DatatypeSortRef):
                    for i in range(s.num_constructors()):
                        def f(S, l=l, i=i, s=s, T=T):
                            v = S[l]
                            if isinstance(v, Adt): return z3.BoolVal(v.var == i)
                            return s.recognizer(i)(v)
                        out.append(Cand("%s is v%d" % (l.name, i), f))
    return out


def measures(ex, L):
    """candidate termination measures: natural numbers that shrink"""
    bs = bounds_of(ex, L.st, L.leaves)
    out = []
    for l in L.ints:
        for b in bs: out.append(("%s - %s" % (b, l.name), lambda S, l=l, b=b: b - S[l]))
        out.append((l.name, lambda S, l=l: S[l]))
    for l in L.vecs: out.append(("len " + l.name, lambda S, l=l: S[l].len))
    # an index that runs through a vector the loop changes
    for l in L.ints:
        for v in L.vecs: out.append(("len %s - %s" % (v.name, l.name), lambda S, l=l, v=v: S[v].len - S[l]))
    return out


def prune_frame(st, fr, entry_locals):
    for l in list(fr.loc):
        if l not in entry_locals:
            st.cells.pop(fr.loc[l], None)
            del fr.loc[l]


def hook(ex, st, fr, target, body, work):
    rec = fr.cuts.get(("L", target))
    inside = fr.bb in body
    if rec is not None and inside:
        # back edge
        if rec.mode == "past": raise Unsupported("loop goes on after its flag changed")
        if rec.flags:
            keep = []
            for s in split(ex, st, rec.flags):
                if all(side(ex, s, f) for f in rec.flags): keep.append(s); continue
                if rec.mode == "collect": continue
                # the flag of the loop has changed: the rest is executed from the state at hand
                f2 = s.frames[-1]
                if ex.on_back and not ex.mute: ex.on_back(ex, s, f2, rec, since(s, f2, rec.header))
                past = Rec()
                past.mode, past.body, past.header = "past", body, target
                f2.cuts[("L", target)] = past
                enter(ex, s, f2, target)
                f2.bb = target
                work.append(s)
            for s in keep:
                if rec.mode == "collect": rec.arrivals.append(s)
                else: check_back(ex, s, s.frames[-1], rec)
            return False
        if rec.mode == "collect":
            rec.arrivals.append(st)
            return False
        if rec.mode == "first":
            if ex.on_back: ex.on_back(ex, st, fr, rec, since(st, fr, rec.header))
            if rec.uid >= ex.first_round: return False
            # definite executions of a few rounds
            rec = first(rec.uid + 1, target, body, rec.leaves, rec.facts)
            define(ex, st, rec)
            fr.cuts[("L", target)] = rec
            enter(ex, st, fr, target)
            fr.bb = target
            return True
        check_back(ex, st, fr, rec)
        return False
    mode = ex.loop_mode(ex, st, fr, target) if ex.loop_mode else "inv"
    if mode == "unroll": return None
    n = concrete(ex, st, fr, body)
    if n is not None and not (inside and fr.cuts.get(("U", target), 1 << 30) <= n):
        # a known number of rounds: executed one by one
        fr.cuts[("U", target)], fr.cuts[("n", target)] = n, 0
        return None
    if ex.first_round and not ex.mute:
        # definite executions only: one round from the state at hand, one from any later round that is known exactly
        try: s = later(ex, st, fr, target, body)
        except Unsupported: s = None
        rec = first(1, target, body, *definitions(ex, st, fr, target, body))
        if s is not None:
            f2 = s.frames[-1]
            f2.cuts[("L", target)] = r2 = first(ex.first_round, target, body, rec.leaves, rec.facts)
            define(ex, s, r2)
            enter(ex, s, f2, target)
            f2.bb = target
            work.append(s)
        define(ex, st, rec)
        fr.cuts[("L", target)] = rec
        enter(ex, st, fr, target)
        fr.bb = target
        return True
    return cut(ex, st, fr, target, body)


def concrete(ex, st, fr, body):
    """how many elements the iterators of known extent that the loop mentions still have"""
    key = (id(fr.inst), min(body), len(body))
    used = MENTIONED.get(key)
    if used is None:
        used = MENTIONED[key] = set()
        def places(x):
            if isinstance(x, dict):
                if "l" in x and "p" in x: used.add(x["l"])
                for y in x.values(): places(y)
            elif isinstance(x, list):
                for y in x: places(y)
        for b in body: places(fr.inst["blocks"][b])
    total, found, seen = 0, False, set()
    def walk(v, depth):
        nonlocal total, found
        if depth > 4: return
        if isinstance(v, Iter):
            p, e = simp(v.pos), simp(v.end)
            if z3.is_int_value(p) and z3.is_int_value(e) and e.as_long() - p.as_long() <= 64: total += max(0, e.as_long() - p.as_long()); found = True
        elif isinstance(v, Adt):
            if v.ty is not None and len(v.f) == 2 and ex.T.name(v.ty).startswith("std::ops::Range<") and all(is_t(x) and z3.is_int_value(x) for x in v.f):
                d = v.f[1].as_long() - v.f[0].as_long()
                if d <= 64: total += max(0, d); found = True
                return
            for x in v.f: walk(x, depth + 1)
        elif isinstance(v, Ref) and v.cell not in seen:
            seen.add(v.cell)
            if v.cell in st.cells: walk(st.cells[v.cell], depth + 1)
    for l in used:
        if l in fr.loc and fr.loc[l] not in seen:
            seen.add(fr.loc[l])
            walk(st.cells.get(fr.loc[l], UNINIT), 0)
    return total if found else None


MENTIONED = {}


def side(ex, st, flag):
    """does the flag still have the value it had on entry? (None: not known)"""
    v, v0 = get_leaf(ex, st, flag[0]), flag[1]
    if isinstance(v0, Adt): return (v.var == v0.var and v.ty == v0.ty) if isinstance(v, Adt) else None
    if not is_t(v): return None
    v = simp(v)
    if v.eq(v0): return True
    if z3.is_true(v) or z3.is_false(v): return False
    return None


def split(ex, st, flags):
    """the state, for each definite value of the flags"""
    out = [st]
    for fl in flags:
        new = []
        for s in out:
            k = side(ex, s, fl)
            if k is not None: new.append(s); continue
            v = get_leaf(ex, s, fl[0])
            if not is_t(v): raise Unsupported("flag of a loop")
            for b in (True, False):
                c = v if b else z3.Not(v)
                if not ex.feasible(s, c): continue
                t = s.copy()
                t.add(c)
                set_leaf(ex, t, fl[0], z3.BoolVal(b))
                new.append(t)
        out = new
    return out


def flag_of(ex, base, fr0, header, body, l, back):
    """is this leaf a flag that ends the loop in the round after it changes? -> (leaf, value at entry) or None"""
    if l.key[0] == "g": return None
    try: v = get_leaf(ex, base, l)
    except Unsupported: return None
    if is_t(v): v = simp(v)
    if not ((is_t(v) and (z3.is_true(v) or z3.is_false(v))) or (isinstance(v, Adt) and not v.f and v.ty is not None and len(ex.T.t[v.ty].get("variants", ())) > 1)): return None
    fl = (l, v)
    off = []
    for b in back:
        if side(ex, b, fl) is None and not is_t(get_leaf(ex, b, l)): return None
        off += [s for s in split(ex, b, [fl]) if side(ex, s, fl) is False]
    for s in off:
        s = s.copy()
        f = s.frames[-1]
        rec = Rec(); rec.mode, rec.body, rec.header = "collect", body, header
        f.cuts[("L", header)] = rec
        f.bb = header
        if not quietly(ex, s) or rec.arrivals: return None
    return fl if off else None


def quietly(ex, st):
    """execute without recording anything; did it work?"""
    ex.mute += 1
    saved = (ex.on_done, ex.npaths)
    ex.on_done = None
    nu = len(ex.undecided)
    try:
        ex.run(st)
    finally:
        ex.mute -= 1
        ex.on_done, ex.npaths = saved
    ok = len(ex.undecided) == nu
    del ex.undecided[nu:]
    return ok


def constants(t, out=None):
    """the uninterpreted constants of a term"""
    out, todo, seen = {}, [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if not z3.is_app(x): continue
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x
        else: todo.extend(x.children())
    return out


def convex(g, c):
    """[(kind, K)]: is this condition on the counter c a conjunction of linear bounds ("bound") and of c != K?"""
    if z3.is_and(g): return [x for y in g.children() for x in convex(y, c)]
    neg = z3.is_not(g)
    a = g.arg(0) if neg else g
    if z3.is_or(a) and neg: return [x for y in a.children() for x in convex(z3.Not(y), c)]
    if z3.is_true(g): return []
    if not (z3.is_app(a) and a.num_args() == 2 and all(linear(x) for x in a.children())): raise Unsupported("condition on a counter")
    if z3.is_le(a) or z3.is_ge(a) or z3.is_lt(a) or z3.is_gt(a) or (z3.is_eq(a) and not neg): return [("bound", None)]
    if z3.is_eq(a):
        x, y = a.children()
        if z3.is_int_value(y) and x.eq(c): return [("not", y.as_long())]
        if z3.is_int_value(x) and y.eq(c): return [("not", x.as_long())]
    raise Unsupported("condition on a counter")


def linear(t):
    if z3.is_int_value(t) or (z3.is_const(t) and t.sort() == IntS): return True
    if z3.is_add(t) or z3.is_sub(t): return all(linear(x) for x in t.children())
    if z3.is_mul(t): return sum(not z3.is_int_value(x) for x in t.children()) <= 1 and all(linear(x) for x in t.children())
    return False


def step(ex, b, v, h):
    """by how much the round b changes the integer h, where that is known"""
    d = simp(v - h)
    while not z3.is_int_value(d) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        # wrapping arithmetic
        if not quick(ex, b, v.arg(0)): break
        v = v.arg(1)
        d = simp(v - h)
    return d


def decided(c, known):
    """the condition with the choices that follow from what is known made"""
    sol = z3.Solver(); sol.set("timeout", 1000); sol.add(known)
    for i in range(8):
        todo, seen, hit = [c], set(), None
        while todo and hit is None:
            x = todo.pop()
            if x.get_id() in seen or not z3.is_app(x): continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_ITE:
                for k, v in ((z3.Not(x.arg(0)), x.arg(1)), (x.arg(0), x.arg(2))):
                    if sol.check(k) == z3.unsat: hit = (x, v); break
            todo.extend(x.children())
        if hit is None: return c
        c = simp(z3.substitute(c, hit))
    return c


def later(ex, st0, fr0, header, body):
    """the state at the head of the round after n >= 1 rounds, n arbitrary, of a loop that changes nothing but
    counters (and what its last round made of them): it is reached when each of the rounds before it can end"""
    if any(isinstance(k, tuple) and k[0] == "L" for f in st0.frames for k in f.cuts): return None
    base = st0.copy()
    leaves, keys = [], set()
    for rnd in range(4):
        head, back = discover(ex, base, fr0, header, body, leaves)
        new = []
        for b in back:
            for l in changed(ex, head, b):
                if l.key not in keys: keys.add(l.key); new.append(l)
        if not new: break
        leaves += new
    else: return None
    live = [l for l in leaves if l.kind != "dead"]
    if not live or not back: return None
    n = fresh(IntS, "rounds")
    counters, others = {}, []
    for l in live:
        if l.kind == "int":
            v0, h = simp(get_leaf(ex, base, l)), get_leaf(ex, head, l)
            ds = [step(ex, b, get_leaf(ex, b, l), h) for b in back]
            if z3.is_int_value(v0) and all(z3.is_int_value(d) and d.eq(ds[0]) for d in ds) and ds[0].as_long() != 0:
                counters[h.decl().name()] = (l, h, v0.as_long(), ds[0].as_long())
                continue
        elif l.kind not in ("bool", "term"): return None
        others.append(l)
    if DEBUG: print("   LATER", counters, others, [(l.kind, get_leaf(ex, back[0], l)) for l in live])
    if not counters: return None
    sub = lambda t, m: z3.substitute(t, *[(h, iv(v0) + iv(k) * m) for l, h, v0, k in counters.values()])
    s = st0.copy()
    s.add(z3.And(n >= 1, n <= 10**6))      # more rounds than that are not held against a program
    # what each earlier round needed to end and begin the next
    conds = []
    for b in back:
        g = []
        for c in b.pc[len(head.pc):]:
            vs = set(constants(c))
            if not vs & set(counters): continue
            if vs - set(counters):
                if DEBUG: print('   MIXED', str(c)[:600])
                g = None; break
            g.append(decided(c, g))
        if g is None: continue
        g = simp(z3.And(g)) if g else z3.BoolVal(True)
        conds.append(g)
    if DEBUG: print("   CONDS", conds)
    if not conds: return None
    m = fresh(IntS, "round")
    ranges = [z3.And(simp(sub(h, m)) >= lo, simp(sub(h, m)) <= hi) for l, h, v0, k in counters.values() if l.tid is not None for lo, hi in [ex.T.int_range(l.tid) if ex.T.kind(l.tid) in ("int", "char") else (-(1 << 200), 1 << 200)]]
    always = z3.And([m >= 0] + ranges)
    sol = z3.Solver(); sol.set("timeout", 3000)
    sol.add(always, z3.Not(sub(z3.Or(conds), m)))
    if sol.check() != z3.unsat:
        # one way round the loop that is taken in all of them
        for g in conds:
            try:
                for l, h, v0, k in counters.values():
                    for kind, K in convex(g, h):
                        if kind == "not" and (K - v0) % k == 0 and (K - v0) // k >= 0: s.add(n <= (K - v0) // k)
                s.add(simp(sub(g, iv(0)))); s.add(sub(g, n - 1))
                break
            except Unsupported: continue
        else: return None
    for c in ranges: s.add(z3.substitute(c, (m, n)))
    for l, h, v0, k in counters.values(): set_leaf(ex, s, l, simp(iv(v0) + iv(k) * n))
    for l in others:
        ts = [get_leaf(ex, b, l) for b in back]
        if not all(is_t(t) and t.eq(ts[0]) for t in ts) or set(constants(ts[0])) - set(counters): return None
        set_leaf(ex, s, l, simp(sub(ts[0], n - 1)))
    return s


def definitions(ex, st0, fr0, header, body):
    """what the loop changes and what the contract says about its specification functions at the head of a round:
    a round that is executed needs the same definitions as one that is generalised"""
    if not ex.loop_spec: return (), ()
    try:
        base = st0.copy()
        leaves, keys = [], set()
        for rnd in range(4):
            head, back = discover(ex, base, fr0, header, body, leaves)
            new = [l for b in back for l in changed(ex, head, b) if l.key not in keys]
            if not new: break
            for l in new:
                if l.key not in keys: keys.add(l.key); leaves.append(l)
        live = [l for l in leaves if l.kind != "dead"]
        L = Loop(ex, base, fr0, header, live, Snap(ex, base, live))
        L.facts, L.measures = [], []
        ex.loop_spec(ex, L)
        return live, L.facts
    except Unsupported: return (), ()


def define(ex, st, rec):
    if not rec.facts: return
    try: S = Snap(ex, st, rec.leaves)
    except Unsupported: return
    for f in rec.facts:
        try: st.add(f(S))
        except Unsupported: pass


def first(n, header, body, leaves=(), facts=()):
    """the record of the n-th round of a loop that is executed, not generalised"""
    rec = Rec()
    rec.leaves, rec.facts = leaves, facts
    rec.mode, rec.uid, rec.body, rec.header, rec.measures = "first", n, body, header, True
    return rec


def left(ex, st, fr, target):
    """is this jump leaving a loop under discovery?"""
    for k, rec in fr.cuts.items():
        if isinstance(k, tuple) and k[0] == "L" and rec.mode == "collect" and fr.bb in rec.body and target not in rec.body: return True
    return False


def discover(ex, st0, fr0, header, body, leaves, flags=()):
    """execute the body once from the generalised head; returns (head state, back-edge states)"""
    st = st0.copy()
    fr = st.frames[-1]
    for l in leaves: havoc(ex, st, l, None)
    rec = Rec(); rec.mode = "collect"; rec.body = body; rec.header = header
    rec.flags = list(flags)
    fr.cuts[("L", header)] = rec
    for k in list(fr.cuts):
        if k != ("L", header) and isinstance(k, tuple) and k[0] == "L" and k[1] in body and k[1] != header: del fr.cuts[k]
    fr.bb = header
    head = st.copy()
    ex.mute += 1
    saved = (ex.on_done, ex.npaths)
    ex.on_done = None
    nu = len(ex.undecided)
    try:
        ex.run(st)
    finally:
        ex.mute -= 1
        ex.on_done = saved[0]; ex.npaths = saved[1]
    if len(ex.undecided) > nu:
        msg = ex.undecided[nu]
        del ex.undecided[nu:]
        raise Unsupported("in loop body: " + msg)
    return head, rec.arrivals


def cut(ex, st, fr, header, body):
    T = ex.T
    entry_locals = set(fr.loc)
    base = st.copy()
    leaves, keys, flags, noflags = [], set(), [], set()
    for rnd in range(12):
        head, back = discover(ex, base, fr, header, body, leaves, flags)
        new = []
        more = False
        for l in [l for b in back for l in changed(ex, head, b) if l.kind in ("bool", "val") or (l.kind == "dead" and not l.key[1])]:
            if l.key in noflags or l.key in keys or l.kind == "dead": continue
            noflags.add(l.key)
            fl = flag_of(ex, base, fr, header, body, l, back)
            if fl: flags.append(fl); more = True
        if more: continue
        for b in back:
            for l in changed(ex, head, b):
                if l.key in keys: continue
                # a leaf inside or around one already known
                new.append(l)
        add = []
        for l in new:
            if l.key in keys: continue
            # if a known leaf lies below this one, replace it
            for o in list(leaves):
                if o.key[0] == l.key[0] and l.key[0] != "g" and o.key[1][:len(l.key[1])] == l.key[1] and len(o.key[1]) > len(l.key[1]):
                    leaves.remove(o); keys.discard(o.key)
            if any(o.key[0] == l.key[0] and l.key[0] != "g" and l.key[1][:len(o.key[1])] == o.key[1] for o in leaves + add): continue
            # several back edges may disagree on the kind: dead wins
            add.append(l); keys.add(l.key)
        if not add: break
        leaves.extend(add)
    else: raise Unsupported("loop state does not stabilise")
    live = [l for l in leaves if l.kind != "dead"]
    entry = Snap(ex, base, live)
    L = Loop(ex, base, fr, header, live, entry)
    if DEBUG: print("LOOP", fr.inst["name"][:80], "bb%d" % header, leaves, "back edges", len(back))
    cands = templates(ex, L)
    facts = []
    L.facts = facts          # functions S -> formula, definitional axioms assumed at the head
    L.measures = []
    if ex.loop_spec: cands = cands + (ex.loop_spec(ex, L) or [])
    # valid on entry
    ok = []
    ef = [f(entry) for f in facts]
    for c in cands:
        try: g = c.f(entry)
        except Unsupported: continue
        if g is None: continue
        if quick(ex, base, g, ef): ok.append(c)
        elif DEBUG and "sim" in c.name: print("   not at entry:", c.name)
    cands = ok
    # inductive subset
    hs = Snap(ex, head, live)
    # facts about the head state hold in every state explored from it
    fct = [f(hs) for f in facts]
    bsn = [Snap(ex, b, live) for b in back]
    while True:
        hyp = [c.f(hs) for c in cands]
        drop = set()
        for b, bs in zip(back, bsn):
            goals = []
            for c in cands:
                if id(c) in drop: continue
                g = simp(c.f(bs))
                if z3.is_true(g): continue
                goals.append((c, g))
            for c in houdini(ex, b, hyp + fct + [f(bs) for f in facts], goals): drop.add(id(c))
        if not drop: break
        if DEBUG:
            for c in cands:
                if id(c) in drop and ("sim" in c.name or DEBUG == "2"): print("   not inductive:", c.name)
        cands = [c for c in cands if id(c) not in drop]
    if DEBUG: print("   INV", [c.name for c in cands])
    # termination
    meas = None
    hyp = [c.f(hs) for c in cands] + fct
    for nm, m in L.measures + measures(ex, L):
        good = True
        for b, bs in zip(back, bsn):
            if not proved(ex, b, hyp, z3.And(m(bs) < m(hs), m(hs) >= 0)): good = False; break
        if good: meas = (nm, m); break
    if DEBUG: print("   MEASURE", meas and meas[0])
    where = "%s loop" % fr.inst["name"].split("::")[-1][:60]
    # final cut
    for c in cands:
        ex.record(st, "loop invariant holds on entry (%s)" % short(fr), True)
    for l in leaves: havoc(ex, st, l, None)
    S = Snap(ex, st, live)
    for c in cands: st.add(c.f(S))
    for f in facts: st.add(f(S))
    rec = Rec(); rec.mode = "check"; rec.body = body; rec.header = header
    rec.cands, rec.snap, rec.leaves, rec.measures, rec.name = cands, S, live, meas, short(fr)
    fr.cuts[("L", header)] = rec
    rec.facts = facts
    rec.flags = flags
    if ex.need_termination and meas is None and back:
        ex.soft("termination of the loop in %s not established" % short(fr))
    st.havoced = True
    enter(ex, st, fr, header)
    fr.bb = header
    return True


def enter(ex, st, fr, header):
    """the head of a round; the last entry tells whether it is a round of an outermost loop"""
    outer = True
    for f in st.frames:
        for k, r in f.cuts.items():
            if not (isinstance(k, tuple) and k[0] == "L") or (f is fr and k[1] == header): continue
            if (header in r.body) if f is fr else (f.bb in r.body): outer = False
    st.events.append(("head", fr.uid, header, outer))
    if outer and ex.on_head and not ex.mute: ex.on_head(ex, st, fr, header)


def since(st, fr, header):
    """the events of this iteration"""
    for i in range(len(st.events) - 1, -1, -1):
        e = st.events[i]
        if e[0] == "head" and e[1] == fr.uid and e[2] == header: return [x for x in st.events[i + 1:] if x[0] != "head"]
    return list(st.events)


def short(fr): return fr.inst["name"].split(" as ")[0].split("::<")[0].rsplit("::", 1)[-1] if not fr.inst["name"].startswith("<") else fr.inst["name"].rsplit("::", 1)[-1]


def check_back(ex, st, fr, rec):
    if ex.on_back and not ex.mute: ex.on_back(ex, st, fr, rec, since(st, fr, rec.header))
    S = Snap(ex, st, rec.leaves)
    for f in rec.facts: st.add(f(S))
    gs = [c.f(S) for c in rec.cands]
    if gs: ex.prove(st, z3.And(gs), "loop invariant preserved (%s)" % rec.name)
    if rec.measures:
        nm, m = rec.measures
        ex.prove(st, z3.And(m(S) < m(rec.snap), m(rec.snap) >= 0), "loop terminates (%s)" % rec.name)


def proved(ex, st, hyp, goal, timeout=3):
    r, m, how = smt.check(ex, st, goal, hyp, timeout)
    return r == "unsat"


def quick(ex, st, goal, hyp=()):
    goal = simp(goal)
    if z3.is_true(goal): return True
    if z3.is_false(goal): return False
    return proved(ex, st, hyp, goal)


def houdini(ex, st, hyp, goals):
    """goals not implied"""
    if not goals: return []
    if proved(ex, st, hyp, z3.And([g for _, g in goals])): return []
    if len(goals) == 1: return [goals[0][0]]
    bad = []
    h = len(goals) // 2
    return houdini(ex, st, hyp, goals[:h]) + houdini(ex, st, hyp, goals[h:])
