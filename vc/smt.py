"""Discharging obligations: ground instantiation of quantified facts, z3, cvc5 as second back end."""
import z3, time, subprocess, tempfile, os

ROUNDS = 4
CROSS = False       # also ask cvc5 about everything z3 discharges
MAXINST = 6000
_cache = {}          # ast id -> (ast, frozenset of (pool, term id))
_terms = {}


def pools_of(e):
    """ground terms of e by pool: sort name, and 'idx' for integer terms used as array indices"""
    k = e.get_id()
    r = _cache.get(k)
    if r is not None: return r[1]
    out = set()
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): continue
        if not z3.is_app(x): continue
        s = x.sort()
        sk = s.kind()
        if sk in (z3.Z3_UNINTERPRETED_SORT, z3.Z3_DATATYPE_SORT):
            if _ground(x):
                out.add((s.name(), i)); _terms[i] = x
        dk = x.decl().kind()
        if dk in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
            ix = x.arg(1)
            if ix.sort().kind() == z3.Z3_INT_SORT and _ground(ix):
                out.add(("idx", ix.get_id())); _terms[ix.get_id()] = ix
        elif dk == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            n = x.decl().name()
            if n in FUNPOOLS and _ground(x):
                out.add(("@" + n, i)); _terms[i] = x
        stack.extend(x.children())
    fs = frozenset(out)
    _cache[k] = (e, fs)
    return fs


FUNPOOLS = set()
_gcache = {}
def _ground(x):
    """no bound variables inside"""
    i = x.get_id()
    r = _gcache.get(i)
    if r is not None: return r[1]
    if z3.is_var(x): r = False
    elif z3.is_quantifier(x): r = True
    else: r = all(_ground(c) for c in x.children())
    _gcache[i] = (x, r)
    return r


def instantiate(quants, pools, done):
    out = []
    for q in quants:
        for args in q.tuples(pools):
            key = (id(q),) + tuple(a.get_id() for a in args)
            if key in done: continue
            done.add(key)
            b = q.body(*args)
            if b is None: continue
            out.append(b)
            if len(done) > MAXINST: return out
    return out


class Pools:
    def __init__(self): self.p = {}; self.have = set()
    def add(self, fs):
        for pool, i in fs:
            if (pool, i) not in self.have:
                self.have.add((pool, i))
                self.p.setdefault(pool, []).append(_terms[i])
    def get(self, pool): return self.p.get(pool, [])


def check(ex, st, goal, extra=(), timeout=None):
    t0 = time.time()
    timeout = timeout or ex.solve_timeout
    try:
        return _check(ex, st, goal, extra, timeout)
    finally:
        ex.stats["queries"] += 1
        ex.stats["time"] += time.time() - t0


def _check(ex, st, goal, extra, timeout):
    F = list(st.pc) + list(ex.globals) + list(extra) + [z3.Not(goal)]
    s = z3.SimpleSolver() if False else z3.Solver()
    s.set("timeout", int(timeout * 1000))
    P = Pools()
    for f in F:
        s.add(f)
        P.add(pools_of(f))
    quants = list(st.quants) + list(ex.gquants)
    done = set()
    n = 0
    r = z3.unknown
    open_ = False       # facts that were not instantiated: a countermodel is then no counterexample
    for rd in range(ROUNDS + 1):
        r = s.check()
        if r == z3.unsat:
            ex.stats["z3"] += 1
            if CROSS and not ex.mute:
                ex.stats["cross"] = ex.stats.get("cross", 0) + 1
                try: ok = cvc5(s, 10) == "unsat"
                except Exception: ok = False
                if ok: ex.stats["cross_ok"] = ex.stats.get("cross_ok", 0) + 1
            return "unsat", None, "z3"
        new = instantiate(quants, P, done)
        if len(done) > MAXINST: open_ = True
        if rd == ROUNDS and new:
            open_ = True
            break
        if not new: break
        n += len(new)
        for b in new:
            s.add(b)
            P.add(pools_of(b))
    if r == z3.unknown:
        try:
            r2 = cvc5(s, timeout)
        except Exception as e:
            r2 = "error"
        if r2 == "unsat":
            ex.stats["cvc5"] += 1
            return "unsat", None, "cvc5"
        return "unknown", None, "z3+cvc5"
    if open_: return "unknown", None, "z3 (instantiation stopped)"
    m = s.model()
    return "sat", m, "z3"


def cvc5(s, timeout):
    txt = s.to_smt2()
    fd, p = tempfile.mkstemp(suffix=".smt2")
    os.write(fd, ("(set-logic ALL)\n" + txt).encode()); os.close(fd)
    try:
        o = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), p], capture_output=True, text=True, timeout=timeout + 5)
        return o.stdout.strip().split("\n")[0]
    finally:
        os.unlink(p)
