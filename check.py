#!/usr/bin/env python3-vt
"""Decides one property for the current source of /repo.

usage: check.py ID            (VERIF_TIER=quick|thorough, VERIF_SEED=n)
       check.py --replay FILE  re-run the failing case recorded in a replay file

1. rustc (nightly) translates the current source of /repo to MIR; mirdump writes the monomorphic MIR.
2. vc/ executes every function under contract symbolically and discharges the obligations (z3, cvc5).
3. An obligation that is not discharged is looked for natively: a search runs the real code and tries
   to exhibit an input or history that breaks the property.
"""
import sys, os, json, time, subprocess, shutil, fcntl, tempfile, re, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
REPLAYS = os.environ.get("VERIF_REPLAYS", os.path.join(HERE, "replays"))
sys.path.insert(0, os.path.join(HERE, "vc"))

SPECS = {"C01": "storage", "C02": "storage", "C03": "storage", "C04": "storage", "C05": "values,storage"}
BIN = {"C01": "storage", "C02": "storage", "C03": "storage", "C04": "storage", "C05": "storage"}
for p in ("C06", "C07", "C08", "C09"): BIN[p] = "interp"
for p in ("C10", "C11", "C12", "C13"): BIN[p] = "text"
for p in ("C14", "C15", "C16", "C19", "C20", "C21"): BIN[p] = "servers"
for p in ("C17", "C18"): BIN[p] = "http"
exec(open(os.path.join(HERE, "vc", "registry.py")).read()) if os.path.exists(os.path.join(HERE, "vc", "registry.py")) else None


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN"): e.pop(k, None)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN)


def build_mirdump():
    t = os.path.join(BUILD, "mirdump")
    r = sh(["cargo", "+nightly", "build", "--release", "--offline", "--frozen"], cwd=os.path.join(HERE, "mirdump"), env=env(CARGO_TARGET_DIR=t))
    b = os.path.join(t, "release", "mirdump")
    if r.returncode or not os.path.exists(b): raise RuntimeError("mirdump does not build: " + r.stdout[-2000:])
    return b


def dump():
    """MIR of the current source -> directory with server.json, async_server.json"""
    with Lock("dump"):
        b = build_mirdump()
        t = os.path.join(BUILD, "dump")
        out = os.path.join(BUILD, "mir")
        for p in glob.glob(t + "/debug/build/server*") + glob.glob(t + "/debug/incremental") + glob.glob(t + "/debug/.fingerprint/server*"):
            shutil.rmtree(p, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        root = sh(["rustc", "+nightly", "--print", "sysroot"], env=env()).stdout.strip()
        shim = os.path.join(BUILD, "libvcshim.rlib")
        r = sh(["rustc", "+nightly", "--edition", "2021", "--crate-name", "vcshim", "--crate-type", "rlib", "-Zalways-encode-mir", "-Zmir-opt-level=0", "-Zinline-mir=no",
                "-o", shim, os.path.join(HERE, "mirdump", "shim", "lib.rs")], env=env())
        if r.returncode: raise RuntimeError("vcshim does not build: " + r.stdout[-2000:])
        e = env(LD_LIBRARY_PATH=root + "/lib", RUSTC_WORKSPACE_WRAPPER=b, MIRDUMP_OUT=out, MIRDUMP_CRATES="server,async_server", MIRDUMP_SHIM=shim, CARGO_TARGET_DIR=t, CARGO_INCREMENTAL="0",
                RUSTFLAGS="-Zmir-opt-level=0 -Zalways-encode-mir -Zinline-mir=no -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums --cap-lints=allow")
        for flags, f in ((["--frozen"], e), ([], e), ([], {k: v for k, v in e.items() if k != "MIRDUMP_SHIM"})):
            r = sh(["cargo", "+nightly", "check", "--offline"] + flags, cwd=os.path.join(REPO, "server"), env=f)
            if os.path.exists(os.path.join(out, "server.json")): break
        else: raise RuntimeError("no MIR dump: " + r.stdout[-2000:])
        d = tempfile.mkdtemp(prefix="mir")
        for f in os.listdir(out): shutil.copy(os.path.join(out, f), d)
        return d


def build_native(name):
    with Lock("native"):
        src = os.path.join(HERE, "harness")
        if REPO != "/repo":
            dst = os.path.join(BUILD, "harness-src")
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target"))
            p = os.path.join(dst, "Cargo.toml")
            s = open(p).read().replace('"/repo/', '"%s/' % REPO)
            open(p, "w").write(s)
            src = dst
        t = os.path.join(BUILD, "native")
        for p in glob.glob(t + "/debug/.fingerprint/server-*") + glob.glob(t + "/debug/build/server/*"): shutil.rmtree(p, ignore_errors=True)
        b = os.path.join(t, "debug", name)
        extra = ["sut_async", "sut_multi", "sut_simple"] if name == "servers" else []
        for x in [name] + extra:
            if os.path.exists(os.path.join(t, "debug", x)): os.unlink(os.path.join(t, "debug", x))
        # the server programs are optional: without them their black-box runs are skipped
        r = sh(["cargo", "build", "--offline", "--keep-going"] + [y for x in [name] + extra for y in ("--bin", x)], cwd=src, env=env(CARGO_TARGET_DIR=t))
        if not os.path.exists(b): raise RuntimeError("native search does not build: " + r.stdout[-2000:])
        d = tempfile.mkdtemp(prefix="nat")
        for x in [name] + extra:
            if os.path.exists(os.path.join(t, "debug", x)): shutil.copy(os.path.join(t, "debug", x), os.path.join(d, x))
        return os.path.join(d, name)


def run_native(b, args, secs):
    """one run of the search binary -> its report"""
    out = os.path.join(os.path.dirname(b), "out.json")
    for f in (out, out + ".index"):
        if os.path.exists(f): os.unlink(f)
    try:
        r = subprocess.run([b] + args + [out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=secs, cwd=os.path.dirname(b))
        code = r.returncode
    except subprocess.TimeoutExpired: code = "timeout"
    rep = json.load(open(out)) if os.path.exists(out) else {"status": "none", "cases": 0, "completed": 0, "message": "", "case": []}
    rep["exit"] = code
    if code not in (0, 1) and code != "timeout" and rep.get("status") == "running":
        rep["status"] = "crash"
        try: rep["index"] = int(open(out + ".index").read())
        except (OSError, ValueError): pass
    return rep


CRASH_MATTERS = {"C04", "C10", "C12", "C17", "C18"}


def search(prop, seed, secs):
    """native search; (report, found)"""
    b = build_native(BIN[prop])
    try:
        rep = run_native(b, ["search", prop, str(seed), str(secs)], secs + 120)
        if rep["status"] == "violation": return rep, True
        if rep["status"] == "crash":
            # the process died (stack overflow, abort): find the case
            end = time.time() + 60
            for i in [rep["index"]] + list(range(max(0, rep["index"] - 2), rep["index"] + 4000)):
                if time.time() > end: break
                r2 = run_native(b, ["replay", prop, str(seed), str(i)], 60)
                if r2["status"] in ("violation", "crash"):
                    r2["message"] = r2["message"] or "the process died"
                    return r2, prop in CRASH_MATTERS or r2["status"] == "violation"
        return rep, False
    finally: shutil.rmtree(os.path.dirname(b), ignore_errors=True)


def native_one(prop, seed, index):
    b = None
    try:
        b = build_native(BIN[prop])
        return run_native(b, ["replay", prop, str(seed), str(index)], 60)
    except Exception: return None
    finally:
        if b: shutil.rmtree(os.path.dirname(b), ignore_errors=True)


def replay(path):
    j = json.load(open(path))
    n = j.get("native")
    if not n: print("no failing input was found; failed obligations:"); print(json.dumps(j.get("failed"), indent=1)); return 1
    r = native_one(j["property"], n["seed"], n["index"])
    print(json.dumps(r, indent=1))
    return 1 if r and r["status"] in ("violation", "crash") else 0


def verify(prop, d, tier):
    """run the contracts of a property -> (results, own obligations, supporting obligations, undecided)"""
    import importlib, engine
    sys.modules["engine"] = engine
    for m in SPECS[prop].split(","): importlib.import_module("specs." + m)
    cs = [c for c in engine.CONTRACTS if prop in c.tags or prop in c.kw.get("supports", ())]
    if not cs: raise RuntimeError("no contract speaks about " + prop)
    progs = {}
    for n in sorted({c.kw.get("crate", "server") for c in cs}):
        f = os.path.join(d, n + ".json")
        if os.path.exists(f): progs[n] = engine.Program(f)
    thorough = tier == "thorough"
    import smt
    smt.CROSS = thorough
    # a contract of an internal function is a step of the proof: where it fails nothing is known to be
    # wrong yet, and the native search decides
    internal = {c.name for c in cs if c.kw.get("internal")}
    hard = lambda r: any(prop in o["tags"] and o["status"] == "failed" and not o["havoced"] for o in r["obls"]) and r["contract"] not in internal
    res = engine.run_all(progs, cs, jobs=8, budget=1200 if thorough else 240, timeout=60 if thorough else 10, total=3600 if thorough else 400, enough=hard)
    own, sup, und = [], [], []
    for r in res:
        for o in r["obls"]:
            o["contract"] = r["contract"]; o["fn"] = r["fn"]; o["internal"] = r["contract"] in internal
            (own if prop in o["tags"] else sup).append(o)
        for u in r["undecided"]: und.append("%s: %s" % (r["contract"], u))
    return res, own, sup, und


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    res, own, sup, und = [], [], [], []
    d = None
    try:
        d = dump()
        res, own, sup, und = verify(prop, d, tier)
    except Exception as e:
        und.append("verifier: %s: %s" % (type(e).__name__, e))
    finally:
        if d: shutil.rmtree(d, ignore_errors=True)
    bad_own = [o for o in own if o["status"] != "discharged"]
    bad_sup = [o for o in sup if o["status"] != "discharged"]
    proved = bool(own) and not bad_own and not bad_sup and not und
    hard = [o for o in bad_own if o["status"] == "failed" and not o["havoced"] and not o["internal"]]
    # native run: decides what the verifier left open; on a proved tree it only validates the assumed models
    nat, found, nerr = None, False, None
    secs = (5 if proved else 60) if tier == "quick" else (60 if proved else 300)
    try: nat, found = search(prop, seed, secs)
    except Exception as e: nerr = "%s: %s" % (type(e).__name__, e)
    verdict = 0
    path = None
    if found or hard:
        verdict = 1
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, prop + ".json")
        json.dump({"property": prop, "failed": [{k: o[k] for k in ("contract", "fn", "name", "status", "line", "how", "trace", "model")} for o in sorted(bad_own, key=lambda o: o["havoced"] or o["status"] != "failed")[:30] + bad_sup[:10]],
                   "native": {"seed": nat["seed"], "index": nat["index"], "message": nat["message"], "case": nat["case"]} if found else None,
                   "undecided": und, "replay_cmd": "python3-vt %s --replay %s" % (os.path.join(HERE, "check.py"), path)}, open(path, "w"), indent=1)
    wall = time.time() - t0
    st = {k: sum(r["stats"].get(k, 0) for r in res) for k in ("queries", "time", "z3", "cvc5", "cross", "cross_ok")}
    fns = sorted({r["fn"] for r in res if r["fn"]})
    base = ["rustc's translation of the source to MIR and mirdump's serialisation of it",
            "the verifier in /verif/vc (symbolic execution of MIR, instantiation of quantified facts)", "z3 and cvc5",
            "the models of library functions in vc/models.py and the reference bodies in mirdump/shim/lib.rs that stand for iterator-driven library functions",
            "memory is never exhausted; vectors and maps hold at most 2^63-1 elements"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": round(wall, 2), "violations": verdict,
          "coverage": {
              "obligations": len(own) + len(sup), "discharged": len([o for o in own + sup if o["status"] == "discharged"]),
              "own_obligations": len(own), "supporting_obligations": len(sup),
              "checker_cmd": "cd /verif && VERIF_TIER=%s python3-vt check.py %s" % (tier, prop),
              "trusted_base": base + NOTES.get(prop, {}).get("trusted", []),
              "decided": "proved" if proved else ("violation" if verdict else "not proved on this tree: bounded native search only"),
              "functions_under_contract": fns,
              "contracts": [{"contract": r["contract"], "function": r["fn"], "obligations": len(r["obls"]), "paths": r["paths"], "wall_s": r["wall"]} for r in res],
              "functions_inlined": sorted({n for r in res for n in r["inlined"]})[:400],
              "library_reference_bodies_used": sorted({n for r in res for n in r["inlined"] if n.startswith("vcshim::")}),
              "library_models_used": sorted({n for r in res for n in r["modelled"]}),
              "contracts_used_at_calls": sorted({n for r in res for n in r["contracts_used"]}),
              "clone_contracts_used": sorted({n for r in res for n in r["clones"]}),
              "back_ends": {"z3_unsat": st["z3"], "cvc5_unsat_after_z3_unknown": st["cvc5"], "second_prover_agreed": st["cross_ok"], "second_prover_asked": st["cross"]},
              "solver_queries": st["queries"], "solver_time_s": round(st["time"], 2),
              "not_discharged": [{k: o[k] for k in ("contract", "fn", "name", "status", "line")} for o in (bad_own + bad_sup)][:40],
              "undecided": und[:40],
              "model_validation": {"what": "native executions of the real code against an executable oracle; bounded, never counted as proved", "bound": "%d s, seed %d" % (secs, seed),
                                   "cases": nat["cases"] if nat else 0, "completed": nat["completed"] if nat else 0, "sample": (nat["case"][:12] if nat else []), "error": nerr},
          },
          "assumptions": base + NOTES.get(prop, {}).get("assumptions", [])}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, prop + ".json.tmp%d" % os.getpid())
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(EVID, prop + ".json"))
    print("%s: %d obligations, %d discharged, %d functions under contract, %s, %.1f s" % (prop, len(own) + len(sup), ev["coverage"]["discharged"], len(fns), ev["coverage"]["decided"], wall))
    for o in (bad_own + bad_sup)[:10]: print("  not discharged: [%s] %s (%s) %s %s" % (",".join(o["tags"]), o["contract"], o["name"], o["status"], o["line"]))
    for u in und[:5]: print("  undecided: " + u[:300])
    if nerr: print("  native search: " + nerr[-1500:])
    if found:
        print("  failing case: " + nat["message"])
        for l in nat["case"][-12:]: print("    " + l[:300])
    if verdict:
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if found else " no-failing-input-found"))
    return verdict


if __name__ == "__main__":
    if sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "--build":
        build_mirdump(); d = dump(); shutil.rmtree(d)
        for b in sorted(set(BIN[p] for p in SPECS)): shutil.rmtree(os.path.dirname(build_native(b)), ignore_errors=True)
        sys.exit(0)
    sys.exit(main(sys.argv[1]))
