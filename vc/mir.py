"""Loading of the MIR dump produced by /verif/mirdump, pretty printing, control-flow facts."""
import json, re


class Prog:
    def __init__(self, files):
        self.progs = []
        for f in files:
            self.progs.append(load(f))


# items the library re-exports: other crates print them by the shorter path
EXPORTS = {"Interpreter": "interpreter", "InterpreterRequest": "interpreter", "InterpreterResponse": "interpreter", "Parser": "parser",
           "Statement": "statements", "Tokenizer": "tokenizer", "AnnotatedToken": "tokens", "Token": "tokens", "TokenLocation": "tokens"}


def load(f):
    s = open(f).read()
    s = re.sub(r"\bserver::analysis::([A-Z]\w*)", lambda m: "server::analysis::%s::%s" % (EXPORTS[m.group(1)], m.group(1)) if m.group(1) in EXPORTS else m.group(0), s)
    return Crate(json.loads(s), f)


class Crate:
    def __init__(self, d, name=""):
        self.types = d["types"]
        self.insts = d["insts"]
        self.roots = d["roots"]
        self.name = name
        self.by_name = {}
        for i in self.insts:
            self.by_name.setdefault(i["name"], i)
        for t in self.types:
            if t["k"] == "coroutine" and t.get("body", -1) >= 0: entry_only(self.insts[t["body"]])

    def find(self, name):
        """the instance with exactly this name, with a body"""
        i = self.by_name.get(name)
        if i is not None and "blocks" in i:
            return i
        return None

    def match(self, rx):
        r = re.compile(rx)
        return [i for i in self.insts if "blocks" in i and r.fullmatch(i["name"])]


def entry_only(inst):
    """the body of a coroutine, entered at its start: a poll that is not ready has no effect, and when it is
    resumed the coroutine goes on where it stopped (the translation of async functions is rustc's)"""
    if "blocks" not in inst: return
    bl = inst["blocks"]
    t = bl[0]["t"]
    if t["k"] != "switch" or bl[-1]["t"]["k"] == "resume": return
    bl.append({"cleanup": False, "st": [], "t": {"k": "resume"}})
    t["ts"] = [x for x in t["ts"] if x[0] == "0"]
    t["o"] = len(bl) - 1


def place_s(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        k = e[0]
        if k == "d": s = "(*%s)" % s
        elif k == "f": s = "%s.%d" % (s, e[1])
        elif k == "i": s = "%s[_%d]" % (s, e[1])
        elif k == "v": s = "(%s as v%d)" % (s, e[1])
        else: s = "%s{%s}" % (s, e)
    return s


def op_s(o):
    if o["k"] in ("copy", "move"): return o["k"][0] + " " + place_s(o["p"])
    if o["k"] == "const": 
        c = o["c"]
        return "const(%s)" % json.dumps(c.get("v", c.get("s", c["k"] + str(c.get("ty")))))[:100]
    return str(o)


def rv_s(r):
    k = r["k"]
    if k == "use": return op_s(r["o"])
    if k in ("ref", "addr"): return "&%s%s" % ("mut " if r.get("mut") else "", place_s(r["p"]))
    if k == "bin": return "%s(%s,%s)" % (r["op"], op_s(r["a"]), op_s(r["b"]))
    if k == "un": return "%s(%s)" % (r["op"], op_s(r["o"]))
    if k == "discr": return "discr(%s)" % place_s(r["p"])
    if k == "agg": return "agg:%s:%s:%s(%s)" % (r["ak"], r.get("ty"), r.get("variant"), ", ".join(op_s(x) for x in r["f"]))
    if k == "cast": return "cast[%s](%s)->%d" % (r["ck"], op_s(r["o"]), r["ty"])
    return json.dumps(r)


def dump(cr, inst):
    out = [inst["name"], "  argc %d spread %d" % (inst["argc"], inst["spread"])]
    for i, t in enumerate(inst["locals"]):
        out.append("  _%d: %s" % (i, cr.types[t]["name"]))
    for n, b in enumerate(inst["blocks"]):
        if b["cleanup"]: continue
        out.append(" bb%d:" % n)
        for s in b["st"]:
            if s["k"] == "assign": out.append("    %s = %s" % (place_s(s["p"]), rv_s(s["r"])))
            else: out.append("    " + json.dumps(s))
        t = b["t"]
        if t["k"] == "call":
            ft = cr.types[t["fty"]]
            out.append("    %s = CALL %s(%s) -> bb%d" % (place_s(t["d"]), ft["name"] + " #%s" % ft.get("callee", {}).get("inst"), ", ".join(op_s(x) for x in t["a"]), t["t"]))
        else:
            out.append("    " + json.dumps(t))
    return "\n".join(out)


def succs(b):
    t = b["t"]
    k = t["k"]
    if k in ("goto", "drop", "assert"): return [t["t"]]
    if k == "switch": return [x[1] for x in t["ts"]] + [t["o"]]
    if k == "call": return [t["t"]] if t["t"] >= 0 else []
    return []


def loop_info(inst):
    """natural loops: dict header -> set of blocks (via DFS back edges and dominators)"""
    if "_loops" in inst: return inst["_loops"]
    bl = inst["blocks"]
    n = len(bl)
    order, seen = [], set()
    st = [(0, iter(succs(bl[0])))]
    seen.add(0)
    while st:
        u, it = st[-1]
        v = next(it, None)
        if v is None:
            order.append(u); st.pop()
        elif v not in seen:
            seen.add(v); st.append((v, iter(succs(bl[v]))))
    rpo = order[::-1]
    preds = {u: [] for u in rpo}
    for u in rpo:
        for v in succs(bl[u]):
            preds[v].append(u)
    dom = {u: set(rpo) for u in rpo}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for u in rpo[1:]:
            nd = None
            for p in preds[u]:
                nd = set(dom[p]) if nd is None else nd & dom[p]
            nd = (nd or set()) | {u}
            if nd != dom[u]: dom[u] = nd; ch = True
    loops = {}
    for u in rpo:
        for v in succs(bl[u]):
            if v in dom[u]:
                body = loops.setdefault(v, {v})
                work = [u]
                while work:
                    x = work.pop()
                    if x in body: continue
                    body.add(x)
                    work.extend(preds[x])
    inst["_loops"] = loops
    return loops


def uses_place(p, acc):
    acc.add(p["l"])
    for e in p["p"]:
        if e[0] == "i": acc.add(e[1])


def op_uses(o, acc):
    if o["k"] in ("copy", "move"): uses_place(o["p"], acc)


def rv_uses(r, acc):
    for k in ("o", "a", "b"):
        if isinstance(r.get(k), dict): op_uses(r[k], acc)
    if "p" in r and isinstance(r["p"], dict): uses_place(r["p"], acc)
    for f in r.get("f", []) if r["k"] == "agg" else []: op_uses(f, acc)


def liveness(inst):
    """live-in locals per block (address-taken locals are treated as live everywhere they may be reached)"""
    if "_live" in inst: return inst["_live"]
    bl = inst["blocks"]
    gen, kill = [], []
    for b in bl:
        g, k = set(), set()
        def use(acc):
            for x in acc:
                if x not in k: g.add(x)
        for s in b["st"]:
            if s["k"] == "assign":
                a = set(); rv_uses(s["r"], a)
                if s["p"]["p"]: uses_place(s["p"], a)
                use(a)
                if not s["p"]["p"]: k.add(s["p"]["l"])
            elif s["k"] == "setdiscr":
                a = set(); uses_place(s["p"], a); use(a)
        t = b["t"]
        a = set()
        if t["k"] == "switch": op_uses(t["d"], a)
        elif t["k"] == "assert": op_uses(t["c"], a)
        elif t["k"] == "call":
            op_uses(t["f"], a)
            for x in t["a"]: op_uses(x, a)
            if t["d"]["p"]: uses_place(t["d"], a)
            use(a); a = set()
            if not t["d"]["p"]: k.add(t["d"]["l"])
        elif t["k"] == "return": a.add(0)
        # drops do not read the value for our purposes
        use(a)
        gen.append(g); kill.append(k)
    live = [set() for _ in bl]
    ch = True
    while ch:
        ch = False
        for u in range(len(bl) - 1, -1, -1):
            out = set()
            for v in succs(bl[u]): out |= live[v]
            n = gen[u] | (out - kill[u])
            if n != live[u]: live[u] = n; ch = True
    inst["_live"] = live
    return live
