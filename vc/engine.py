"""Runs function contracts and collects obligations."""
import sys, os, json, time, traceback, re
import z3
import mir, core, models, smt
from core import *


class Program:
    def __init__(self, path):
        self.path = path
        self.crate = mir.load(path)
        self.T = Types(self.crate)


class Lost(Exception):
    """an anchor of a contract does not exist in the current source"""


class Contract:
    """name: contract name; tags: properties; find(prog)->inst; run(prog, ex, inst): executes and proves"""
    def __init__(self, name, tags, find, run, **kw):
        self.name, self.tags, self.find, self.run = name, tags, find, run
        self.kw = kw


CONTRACTS = []


def contract(name, tags, find, **kw):
    def d(fn):
        CONTRACTS.append(Contract(name, tags, find, fn, **kw))
        return fn
    return d


def exact(name):
    def f(p):
        i = p.crate.find(name)
        if i is None: raise Lost("function %s not found" % name)
        return i
    return f


def rx(pattern):
    def f(p):
        m = p.crate.match(pattern)
        if len(m) != 1: raise Lost("%d functions match %s" % (len(m), pattern))
        return m[0]
    return f


def run_contract(progs, c, budget=120, extra_models=(), timeout=10):
    """-> dict (plain data)"""
    t0 = time.time()
    prog = progs if isinstance(progs, Program) else progs.get(c.kw.get("crate", "server"))
    if prog is None:
        return {"contract": c.name, "obls": [], "undecided": ["no MIR of " + c.kw.get("crate", "server")], "paths": 0, "fn": None, "stats": {"queries": 0, "time": 0, "z3": 0, "cvc5": 0},
                "wall": 0, "inlined": [], "modelled": [], "contracts_used": [], "clones": [], "assumed": []}
    out = {"contract": c.name, "obls": [], "undecided": [], "paths": 0, "fn": None}
    ex = Exec(prog.crate, prog.T)
    models.install(ex, extra_models)
    ex.deadline = time.time() + budget
    ex.solve_timeout = timeout
    try:
        inst = c.find(prog)
        out["fn"] = inst["name"] if inst else None
        if inst: ex.top_name = inst["name"]
        ex.contract = c
        c.run(prog, ex, inst)
    except (Lost, Unsupported) as e:
        if c.kw.get("optional") and isinstance(e, Lost):
            # a function that other contracts verify as part of its caller: where it is gone nothing is missing
            out["skipped"] = str(e)
            ex.obls.clear()
        else: ex.undecided.append("%s: %s" % (type(e).__name__, e))
    except (AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError, z3.Z3Exception, RecursionError) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ex.undecided.append("internal: %s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        if os.environ.get("VC_DEBUG"): traceback.print_exc()
    for o in ex.obls:
        out["obls"].append({"name": o.name, "status": o.status, "how": o.detail, "line": o.line, "havoced": o.havoced,
                            "tags": getattr(o, "tags", None) or c.tags,
                            "trace": [[a, short(b)] for a, b in (o.trace or [])[-30:]] if o.status != "discharged" else [], "model": model_text(o.model)})
    out["undecided"] = ex.undecided
    out["paths"] = ex.npaths
    out["stats"] = ex.stats
    out["wall"] = round(time.time() - t0, 3)
    out["inlined"] = sorted(ex.inlined)
    out["modelled"] = sorted(ex.modelled)
    out["contracts_used"] = sorted(ex.contract_calls)
    out["clones"] = sorted(ex.clones)
    out["assumed"] = sorted(ex.assume_used)
    return out


def short(e, d=4):
    """a condition for people, cut off at depth d"""
    if not z3.is_expr(e): return str(e)
    if not z3.is_app(e): return "..."
    n = e.decl().name()
    if e.num_args() == 0: return n if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else str(e)
    if d == 0: return "..."
    return "%s(%s)" % (n, ", ".join(short(c, d - 1) for c in e.children()))


def model_text(m):
    if m is None: return None
    if isinstance(m, str): return m
    try:
        s = []
        for d in m.decls():
            if d.arity() == 0 and "!" in d.name(): s.append("%s = %s" % (d.name(), str(m[d])[:200]))
        return "\n".join(sorted(s)[:200])
    except Exception as e:
        return "model not printable"


def start(ex, inst, st, args, on_done):
    """run inst from st; on_done(ex, st, retval) for every path that returns"""
    n = [0]
    def done(e, s):
        n[0] += 1
        on_done(e, s, s.cells[s.ghost["ret"]])
    ex.on_done = done
    ex.start(inst, st, args)
    ex.run(st)
    if n[0] == 0 and not ex.undecided:
        ex.undecided.append("no path of %s returns" % inst["name"])
    ex.npaths = max(ex.npaths, n[0])
    return n[0]


def prove(ex, st, tags, name, goal, line=""):
    n = len(ex.obls)
    if ex.first_round and not st.havoced and any(o.name == name and o.status == "failed" and not o.havoced and getattr(o, "tags", None) == tags for o in ex.obls): return False
    r = ex.prove(st, goal, name, line)
    for o in ex.obls[n:]: o.tags = tags
    return r


def satisfiable(ex, st, name):
    """vacuity guard"""
    r, m, how = smt.check(ex, st, z3.BoolVal(False))
    if r == "unsat":
        ex.undecided.append("precondition of %s is unsatisfiable" % name)
        return False
    return True


def run_all(prog, cs, jobs=8, budget=120, timeout=10, total=None, enough=None):
    """run contracts in forked workers; after `total` seconds, or 30 s after a result that is `enough`,
    the rest is undecided"""
    import multiprocessing as mp
    end = time.time() + total if total else None
    if jobs <= 1 or len(cs) == 1:
        return [run_contract(prog, c, min(budget, total or budget), c.kw.get("models", ()), timeout) for c in cs]
    ctx = mp.get_context("fork")
    global _P, _C, _B
    _P, _C, _B = prog, cs, (budget, timeout, end)
    res = {}
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_one, range(len(cs)), chunksize=1)
        while len(res) < len(cs):
            try: i, r = it.next(max(0.1, end + 45 - time.time()) if end else None)
            except mp.TimeoutError: break
            except StopIteration: break
            res[i] = r
            if enough and end and enough(r): end = min(end, time.time() - 15)
        pool.terminate()
    return [res.get(i) or nothing(c, "not finished within the time for all contracts") for i, c in enumerate(cs)]


def nothing(c, why):
    return {"contract": c.name, "obls": [], "undecided": [why], "paths": 0, "fn": None, "stats": {"queries": 0, "time": 0, "z3": 0, "cvc5": 0}, "wall": 0, "inlined": [], "modelled": [], "contracts_used": [], "clones": [], "assumed": []}


def _one(i):
    c = _C[i]
    try:
        budget, timeout, end = _B
        if end:
            if time.time() > end: return i, nothing(c, "not started within the time for all contracts")
            budget = min(budget, end - time.time())
        return i, run_contract(_P, c, budget, c.kw.get("models", ()), timeout)
    except BaseException as e:
        return i, nothing(c, "crash: %r" % e)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
