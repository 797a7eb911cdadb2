"""Contracts of the servers: C14 (who reaches the executor, at which level), C15 (shutdown), C16 (one
answer per request, its own).  Every server loop is judged iteration by iteration: whatever the state
at its head, the events of one round must be those its contract allows."""
import os
import time
from engine import *
import conc
from models import deep
import loops

S1 = "server::single_threaded::SingleThreadedServer::<server::auth::MockAuthenticator, server::storage::hashmap_storage::HashMapStorage>"
LW = "server::multithreaded::listener::ListenerWorker::<server::io::tcp::TcpStreamHandler, server::auth::MockAuthenticator>"
LP = "server::multithreaded::listener::ListenerPool::<server::io::tcp::TcpStreamHandler, server::auth::MockAuthenticator>"
MT = "server::multithreaded::"
ALL = ["C14", "C15", "C16", "C19", "C21"]
MINUTE = 60 * 10**9


def tid(T, name):
    for i, t in enumerate(T.t):
        if t["name"] == name: return i
    raise Lost("type " + name)


def tidrx(T, pattern):
    for i, t in enumerate(T.t):
        if re.fullmatch(pattern, t["name"]): return i
    raise Lost("type " + pattern)


class V:
    """a term seen through its Rust type"""
    def __init__(self, T, ty, t): self.T, self.ty, self.t = T, ty, t
    def is_(self, var): return self.T.sort(self.ty).recognizer(self.T.vidx(self.ty, var))(self.t)
    def get(self, var, i=0):
        vi = self.T.vidx(self.ty, var)
        return V(self.T, self.T.fields(self.ty, vi)[i], self.T.sort(self.ty).accessor(vi, i)(self.t))
    def f(self, name):
        i = self.T.fidx(self.ty, name)
        return V(self.T, self.T.fields(self.ty)[i], self.T.sort(self.ty).accessor(0, i)(self.t))
    def n(self, i): return V(self.T, self.T.fields(self.ty)[i], self.T.sort(self.ty).accessor(0, i)(self.t))
    def __eq__(self, o): return self.t == (o.t if isinstance(o, V) else o)
    __hash__ = None


class World:
    """the vocabulary of the properties"""
    def __init__(self, ex):
        self.ex, T = ex, ex.T
        self.T = T
        self.err = tid(T, "server::error::ServerError")
        self.resp = tid(T, "std::result::Result<server::analysis::interpreter::InterpreterResponse, server::error::ServerError>")
        self.auth_t = tid(T, "std::result::Result<server::auth::AuthenticationResult, server::error::ServerError>")
        self.toks = tidrx(T, r"std::result::Result<std::vec::Vec<server::analysis::tokens::AnnotatedToken>, server::error::ServerError>")
        self.stmts = tidrx(T, r"std::result::Result<std::vec::Vec<server::analysis::statements::Statement>, server::error::ServerError>")
        self.ireq = tid(T, "server::analysis::interpreter::InterpreterRequest")

    def v(self, name, t): return V(self.T, tid(self.T, name), t)
    def R(self, t): return V(self.T, self.resp, t)

    def auth(self, headers): return V(self.T, self.auth_t, conc.AUTHF(self.ex, headers.sort(), self.auth_t)(headers))
    def tok(self, text): return V(self.T, self.toks, conc.TOK(self.ex, self.toks)(text))
    def parse(self, toks): return V(self.T, self.stmts, conc.PARSE(self.ex, toks.sort(), self.stmts)(toks))

    def authok(self, A): return z3.And(A.is_("Ok"), A.get("Ok").is_("Authenticated"), A.get("Ok").get("Authenticated", 1).is_("Some"))
    def level(self, A): return A.get("Ok").get("Authenticated", 1).get("Some")

    def errkind(self, r, kind): return z3.And(r.is_("Err"), r.get("Err").is_(kind))

    def authbad(self, A, r):
        """the answer r to a request the authentication service turned down"""
        return z3.Or(z3.And(A.is_("Err"), r.is_("Err"), r.get("Err") == A.get("Err")),
                     z3.And(A.is_("Ok"), A.get("Ok").is_("Unauthenticated"), self.errkind(r, "AuthenticationError")),
                     z3.And(A.is_("Ok"), A.get("Ok").is_("Authenticated"), A.get("Ok").get("Authenticated", 1).is_("None"), self.errkind(r, "AuthorizationError")))

    def same_err(self, src, r): return z3.And(src.is_("Err"), r.is_("Err"), r.get("Err") == src.get("Err"))

    def analysed(self, text):
        """(ok, statements, is_its_error(r))"""
        t = self.tok(text)
        p = self.parse(t.get("Ok").t)
        good = z3.And(t.is_("Ok"), p.is_("Ok"))
        return good, p.get("Ok"), lambda r: z3.Or(self.same_err(t, r), z3.And(t.is_("Ok"), self.same_err(p, r)))

    def shutting(self, r): return z3.And(r.is_("Ok"), r.get("Ok").is_("ShuttingDown"))


def ev(events, k): return [e for e in events if e[0] == k]


SIGNIFICANT = ("interpret", "recv", "reply", "chan", "got", "store", "call", "channel")


def enclosing(st, fr, header):
    """is this loop inside the round of another loop?"""
    for f in st.frames:
        for k, rec in f.cuts.items():
            if not (isinstance(k, tuple) and k[0] == "L"): continue
            if f is fr and k[1] == header: continue
            if f is fr:
                if header in rec.body and k[1] != header: return True
            elif f.bb in rec.body: return True
        if f is fr: break
    return False


class Server:
    """runs a function that contains a server loop; judge(st, events, how, value) for every round"""
    def __init__(self, prog, ex, inst, setup, judge, loop=True, ghost=(), rounds=2, inner=None):
        self.ex, self.judge, self.loop = ex, judge, loop
        ex.need_termination = False
        first = [0]
        def mode(e, st, fr, h): return "inv"
        def on_back(e, st, fr, rec, events):
            if enclosing(st, fr, rec.header):
                if inner and inner(e, st, rec, events): return
                if [x for x in events if x[0] in SIGNIFICANT]: e.soft("an inner loop of %s does more than wait" % inst["name"])
                return
            judge(e, st, events, "next", None)
        ex.loop_mode = mode
        ex.on_back = on_back
        st = State()
        ghost = tuple(ghost) + ("server",)
        for g in ghost: st.ghost[g] = True
        args = setup(st)
        def done(e, s, v):
            evs = s.events
            for i in range(len(evs) - 1, -1, -1):
                if evs[i][0] == "head" and evs[i][3]:
                    judge(e, s, [x for x in evs[i + 1:] if x[0] != "head"], "end", v)
                    return
            judge(e, s, [x for x in evs if x[0] != "head"], "end", v)
        n0 = len(ex.obls)
        self.returns = start_server(ex, inst, st, args, done)
        bad = [o for o in ex.obls[n0:] if o.status == "failed" and o.havoced]
        if bad and loop and not ex.undecided:
            # the first round from an arbitrary state of the server is a real execution: what fails there is definite
            keep = list(ex.obls)
            definite = []
            for n in (rounds, 2 * rounds):
                t0 = time.time()
                del ex.obls[n0:]
                try:
                    ex.first_round = n
                    st = State()
                    for g in ghost: st.ghost[g] = True
                    start_server(ex, inst, st, setup(st), done)
                except Unsupported as e: pass
                finally: ex.first_round = 0
                definite = [o for o in ex.obls[n0:] if o.status == "failed" and not o.havoced]
                # more rounds where they come cheap
                if definite or time.time() - t0 > 2: break
            ex.obls[n0:] = keep[n0:] + definite
            if not ex.undecided: pass


def start_server(ex, inst, st, args, on_done):
    n = [0]
    def done(e, s):
        n[0] += 1
        on_done(e, s, s.cells[s.ghost["ret"]])
    ex.on_done = done
    ex.start(inst, st, args)
    ex.run(st)
    return n[0]


class Alive:
    """C21: a worker's rounds.  stop: the flag it is told to stop by"""
    def __init__(self, what, stop): self.what, self.stop = what, stop

    def loads(self, events): return [l for l in ev(events, "load") if l[1].sort().eq(self.stop().sort())]

    def seen(self, events): return [z3.And(l[1] == self.stop(), l[2]) for l in self.loads(events)] + [z3.BoolVal(False)]

    def round(self, e, st, events, how):
        no = z3.BoolVal(False)
        if how == "end":
            prove(e, st, ["C21", "C19", "C20"] if self.what == "executor" else ["C21"], "%s stops only when told to" % self.what, z3.Or(self.seen(events)))
        else:
            prove(e, st, ["C21"], "%s looks at its stop signal in every round" % self.what, z3.Or([l[1] == self.stop() for l in self.loads(events)] + [no]))
            prove(e, st, ["C21"], "%s starts no further round once it has seen its stop signal" % self.what, z3.Not(z3.Or(self.seen(events))))
        self.waits(e, st, events)
        prove(e, st, ["C21"], "%s does not raise or take back its own stop signal" % self.what, z3.And([s[1] != self.stop() for s in ev(events, "store") if s[1].sort().eq(self.stop().sort())] + [z3.BoolVal(True)]))

    def waits(self, e, st, events):
        no = z3.BoolVal(False)
        prove(e, st, ["C21"], "%s never waits without a limit" % self.what, z3.BoolVal(not ev(events, "block")))
        for w in ev(events, "wait"):
            if is_t(w[1]): prove(e, st, ["C21"], "no single wait of %s is longer than a minute" % self.what, w[1] <= MINUTE)
        fin = ev(events, "finished")
        for j in ev(events, "join"):
            prove(e, st, ["C21"], "%s waits for a thread only when it has ended" % self.what, z3.Or([z3.And(f[1] == j[1], f[2]) for f in fin if f[1].sort().eq(j[1].sort())] + [no]))
        rs = [i for i, x in enumerate(events) if x[0] == "recv"]
        if rs: prove(e, st, ["C21"], "%s reads requests in a thread of their own" % self.what, z3.BoolVal(any(x[0] == "spawn" for x in events[:rs[0]])))

    def inner(self, e, st, rec, events):
        """a round of a loop inside a round of the worker: it gets closer to its end or heeds the signal"""
        self.waits(e, st, events)
        if not rec.measures:
            prove(e, st, ["C21"], "an inner loop of %s ends or looks at the stop signal" % self.what, z3.Or([l[1] == self.stop() for l in self.loads(events)] + [z3.BoolVal(False)]))
        prove(e, st, ["C21"], "an inner loop of %s ends once the stop signal was seen" % self.what, z3.Not(z3.Or(self.seen(events))))


def limited(ex, st, v):
    """the waits of a worker are at most a minute (contract of its constructor)"""
    T = ex.T
    v = ex.read(st, v) if isinstance(v, Ref) else v
    for t, x in zip(T.fields(v.ty), v.f):
        if T.name(t) in ("std::time::Duration", "core::time::Duration") and is_t(x): st.add(x <= MINUTE)


def waits_limited(ex, st, v, tags, name, cond=None):
    """v: V of a worker that was made"""
    for n, *_ in ex.T.variants(v.ty)[0]["fields"]:
        if ex.T.name(v.f(n).ty) == "std::time::Duration":
            g = v.f(n).t <= MINUTE
            prove(ex, st, tags, name, g if cond is None else z3.Implies(cond, g))


def alone(e, st, events, who):
    """C19: this worker does not touch the store"""
    prove(e, st, ["C19"], "%s does not touch the store" % who, z3.BoolVal(not ev(events, "interpret") and not ev(events, "touch")))


def symself(ex, st, inst):
    ty = inst["locals"][1]
    return ex.sym(st, ty, "self")


def symargs(ex, st, inst): return [ex.sym(st, inst["locals"][i + 1], "arg%d" % i) for i in range(inst["argc"])]


# ------------------------------------------------------------------ the single-threaded server
def single_judge(W, selfref, T):
    def judge_request(ex, st, events, req, headers, answer, cond):
        """one request: what was executed and what the answer is, when cond holds
        req: V Result<String, ServerError>, headers: term, answer: V response or None"""
        intr = ev(events, "interpret")
        A = W.auth(headers)
        good, stmts, its_error = W.analysed(req.get("Ok").t)
        if len(intr) == 0:
            runnable = z3.And(W.authok(A), req.is_("Ok"), good)
            prove(ex, st, ["C16"], "a request that is admitted and well formed is executed", z3.Implies(cond, z3.Not(runnable)))
            if answer is not None:
                prove(ex, st, ["C14", "C16"], "a request that is not executed is answered with the error that stopped it",
                      z3.Implies(cond, z3.Or(W.authbad(A, answer), W.same_err(req, answer), z3.And(W.authok(A), req.is_("Ok"), its_error(answer)))))
                prove(ex, st, ["C14"], "a user who is turned down gets an authentication, authorisation or service error",
                      z3.Implies(z3.And(cond, z3.Not(W.authok(A)), req.is_("Ok")), W.authbad(A, answer)))
            return
        if len(intr) > 1:
            prove(ex, st, ["C16", "C14"], "a request is executed at most once", z3.Not(cond))
            return
        q = V(T, W.ireq, intr[0][2])
        prove(ex, st, ["C14"], "only an admitted request is executed", z3.Implies(cond, W.authok(A)))
        prove(ex, st, ["C14"], "it is executed at exactly the user's level", z3.Implies(cond, q.f("authorization") == W.level(A)))
        prove(ex, st, ["C16"], "only a well-formed request is executed", z3.Implies(cond, z3.And(req.is_("Ok"), good)))
        prove(ex, st, ["C16"], "exactly its own statements are executed", z3.Implies(cond, q.f("statements") == stmts))
        if answer is not None:
            prove(ex, st, ["C16"], "the answer is the outcome of the execution", z3.Implies(cond, answer == intr[0][3]))
    return judge_request


def untouched(ex, st, W, ref, events):
    """the interpreter is as the last execution (or the start of the round) left it"""
    intr = ev(events, "interpret")
    cur = ex.read(st, ref)
    if intr: was = intr[-1][4]
    else: was = st.ghost.get("interp0")
    if was is None: return
    if loops.same(cur, was): 
        ex.record(st, "the store is changed by executed requests only", True)
        ex.obls[-1].tags = ["C14"]
        return
    ty = tidrx(ex.T, r"server::analysis::interpreter::Interpreter<.*>")
    prove(ex, st, ["C14"], "the store is changed by executed requests only", ex.encode(st, cur, ty) == ex.encode(st, was, ty))


@contract("single_serve", ALL, exact(S1 + "::serve::<server::io::tcp::TcpStreamHandler>"), models=conc.CONC)
def c_single(prog, ex, inst):
    W = World(ex)
    T = ex.T
    sty = T.t[inst["locals"][1]]["to"]
    srt = tid(T, "server::io::stream::StreamRequest")
    jr = single_judge(W, None, T)
    box = {}
    def setup(st):
        a = symargs(ex, st, inst)
        box["self"] = a[0]
        box["interp"] = Ref(a[0].cell, a[0].path + (("f", T.fidx(sty, "interpreter"), sty),))
        st.ghost["interp0"] = ex.read(st, box["interp"])
        return a
    def on_head(e, st, fr, header):
        st.ghost["interp0"] = ex.read(st, box["interp"])
    ex.on_head = on_head
    def judge(e, st, events, how, value):
        recv = ev(events, "recv")
        intr = ev(events, "interpret")
        replies = ev(events, "reply")
        yes, no = z3.BoolVal(True), z3.BoolVal(False)
        untouched(e, st, W, box["interp"], events)
        if len(recv) != 1:
            if how == "end" and len(recv) == 0:
                prove(e, st, ["C15"], "the server stops only when the stream closes or a shutdown was executed", no)
            elif len(recv) > 1: prove(e, st, ["C16"], "every request received is answered before the next", no)
            elif intr or replies: prove(e, st, ["C16"], "only received requests are executed and answered", no)
            return
        if recv[0][1] is None:
            prove(e, st, ["C16"], "nothing is executed or answered without a request", z3.BoolVal(not intr and not replies))
            return
        q = V(T, srt, recv[0][1])
        if len(replies) == 0:
            prove(e, st, ["C16"], "a request with a sender is answered", q.f("sender").is_("None"))
            ans = None
        elif len(replies) == 1:
            prove(e, st, ["C16"], "the answer goes to the sender of the request", z3.And(q.f("sender").is_("Some"), q.f("sender").get("Some") == replies[0][1]))
            ans = W.R(replies[0][2])
        else:
            prove(e, st, ["C16"], "a request is answered at most once", no)
            ans = W.R(replies[0][2])
        jr(e, st, events, q.f("request"), q.f("headers").t, ans, yes)
        down = W.shutting(W.R(intr[-1][3])) if intr else no
        if how == "end": prove(e, st, ["C15"], "the server stops only when the stream closes or a shutdown was executed", down)
        else: prove(e, st, ["C15"], "the server stops once a shutdown was executed", z3.Not(down))
    Server(prog, ex, inst, setup, judge)


# ------------------------------------------------------------------ the executor
def executor_round(W, T, ereq, erep):
    def f(e, st, events, m):
        """m: V ExecutorRequest that was taken"""
        no = z3.BoolVal(False)
        intr, chans = ev(events, "interpret"), ev(events, "chan")
        if len(intr) != 1:
            prove(e, st, ["C16", "C19", "C20"], "a request taken from the queue is executed exactly once", no)
            return None
        q = V(T, W.ireq, intr[0][2])
        prove(e, st, ["C14", "C20"], "it is executed at the level it was queued with", q.f("authorization") == m.f("request").f("authorization"))
        prove(e, st, ["C16", "C19", "C20"], "exactly its statements are executed", q.f("statements") == m.f("request").f("statements"))
        s = m.f("sender")
        if len(chans) == 0: prove(e, st, ["C16"], "a request with a reply channel is answered", s.is_("None"))
        elif len(chans) > 1: prove(e, st, ["C16"], "a request is answered at most once", no)
        else:
            c = chans[0]
            if c[2] != T.name(erep): prove(e, st, ["C16"], "the executor only answers", no)
            else:
                prove(e, st, ["C16"], "the answer goes to the reply channel of the request", z3.And(s.is_("Some"), s.get("Some") == c[1]))
                prove(e, st, ["C16", "C19"], "the answer is the outcome of the execution", V(T, erep, c[3]).f("response") == intr[0][3])
        return W.R(intr[0][3])
    return f


def mutex(ex, st, sty, sref, name):
    """the lock behind an Arc<Mutex<X>> field of self"""
    v = deep(ex, st, Ref(sref.cell, sref.path + (("f", ex.T.fidx(sty, name), sty),)))
    f, x = conc.INNER(ex, ex.T.fields(sty)[ex.T.fidx(sty, name)])
    return f(v)


def behind(ex, st, sty, sref, name):
    """what is inside an Arc<Mutex<X>> field of self"""
    f, x = conc.INNER(ex, ex.T.fields(sty)[ex.T.fidx(sty, name)])
    g, y = conc.CONTENT(ex, x)
    return g(mutex(ex, st, sty, sref, name))


def flag(ex, st, sty, sref, name):
    """the atomic behind an Arc<AtomicBool> field of self"""
    v = deep(ex, st, Ref(sref.cell, sref.path + (("f", ex.T.fidx(sty, name), sty),)))
    f, x = conc.INNER(ex, ex.T.fields(sty)[ex.T.fidx(sty, name)])
    return f(v)


@contract("executor_run", ALL + ["C20"], exact(MT + "executor::Executor::run"), models=conc.CONC)
def c_executor_run(prog, ex, inst):
    W = World(ex)
    T = ex.T
    sty = T.t[inst["locals"][1]]["to"]
    ereq, erep = tid(T, MT + "executor::ExecutorRequest"), tid(T, MT + "executor::ExecutorResponse")
    rnd = executor_round(W, T, ereq, erep)
    box = {}
    def setup(st):
        a = symargs(ex, st, inst)
        box["start"], box["stop"] = flag(ex, st, sty, a[0], "start_shutdown_flag"), flag(ex, st, sty, a[0], "shutdown_flag")
        # the two flags of an executor are different objects (contract of Executor::new)
        st.add(box["start"] != box["stop"])
        limited(ex, st, a[0])
        box["self"], box["queue"] = a[0], behind(ex, st, sty, a[0], "request_channel")
        box["store"] = mutex(ex, st, sty, a[0], "interpreter")
        return a
    alive = Alive("executor", lambda: box["stop"])
    def judge(e, st, events, how, value):
        no = z3.BoolVal(False)
        got = ev(events, "got")
        stores = ev(events, "store")
        down = no
        if ev(events, "spawn"): e.soft("the executor shares its work with other threads")
        alive.round(e, st, events, how)
        held = {l[2]: l[1] for l in ev(events, "lock")}
        for i in ev(events, "interpret"):
            m = held.get(i[1].cell) if isinstance(i[1], Ref) else None
            prove(e, st, ["C19"], "requests are executed on the server's only store", z3.BoolVal(False) if m is None or not m.sort().eq(box["store"].sort()) else m == box["store"])
        prove(e, st, ["C19"], "the store is used by executing requests only", z3.BoolVal(not ev(events, "touch")))
        for g in got: prove(e, st, ["C19", "C20"], "requests are taken from the executor's queue", g[1] == box["queue"])
        if len(got) > 1: prove(e, st, ["C16", "C19"], "every request taken is answered before the next", no); return
        if len(got) == 1:
            r = rnd(e, st, events, V(T, ereq, got[0][3]))
            if r is None: return
            down = W.shutting(r)
        else:
            prove(e, st, ["C16", "C14", "C19"], "nothing is executed or sent without a request", z3.BoolVal(not ev(events, "interpret") and not ev(events, "chan")))
        raised = [z3.And(s[1] == box["start"], s[2]) for s in stores]
        prove(e, st, ["C15"], "the shutdown signal is raised exactly when a shutdown was executed", z3.Or(raised + [no]) == down)
        prove(e, st, ["C15"], "the shutdown signal is never taken back", z3.And([z3.Implies(s[1] == box["start"], s[2]) for s in stores] + [z3.BoolVal(True)]))
        if how == "end":
            prove(e, st, ["C15"], "the executor stops only when told to", z3.Or([z3.And(l[1] == box["stop"], l[2]) for l in ev(events, "load")] + [no]))
            if got: prove(e, st, ["C16"], "a request that was taken is not dropped", z3.BoolVal(True))
    Server(prog, ex, inst, setup, judge, ghost=("exclusive",), inner=alive.inner)


# ------------------------------------------------------------------ the analysers
def analysis_round(W, T, areq, ereq, erep, chan):
    def f(e, st, events, m):
        no = z3.BoolVal(False)
        good, stmts, its_error = W.analysed(m.f("request").t)
        sent = [c for c in ev(events, "chan") if c[2] == T.name(ereq)]
        answers = [c for c in ev(events, "chan") if c[2] == T.name(erep)]
        s = m.f("sender")
        if len(sent) > 1: prove(e, st, ["C16", "C14", "C19"], "a request is queued for execution at most once", no); return
        if len(sent) == 0:
            prove(e, st, ["C16"], "a well-formed request is queued for execution", z3.Not(good))
            if len(answers) == 0: prove(e, st, ["C16"], "a request that fails to tokenise or parse is answered", s.is_("None"))
            elif len(answers) > 1: prove(e, st, ["C16"], "a request is answered at most once", no)
            else:
                prove(e, st, ["C16"], "the error goes to the reply channel of the request", z3.And(s.is_("Some"), s.get("Some") == answers[0][1]))
                prove(e, st, ["C16"], "the answer is the error that stopped the request", its_error(V(T, erep, answers[0][3]).f("response")))
            return
        q = V(T, ereq, sent[0][3])
        prove(e, st, ["C16"], "only a well-formed request is queued for execution", good)
        prove(e, st, ["C16", "C19"], "requests are queued for the executor of this server", sent[0][1] == chan())
        prove(e, st, ["C16", "C19"], "exactly its own statements are queued", q.f("request").f("statements") == stmts)
        prove(e, st, ["C14"], "they are queued at the level the request came with", q.f("request").f("authorization") == m.f("authorization"))
        prove(e, st, ["C16"], "the reply channel of the request is passed on", q.f("sender") == s)
        if answers:
            # only when the executor is gone may the analyser answer in its place
            prove(e, st, ["C16"], "a request is answered exactly once", z3.BoolVal(not sent[0][4] and len(answers) == 1))
            prove(e, st, ["C16"], "the error goes to the reply channel of the request", z3.And(s.is_("Some"), s.get("Some") == answers[0][1]))
            prove(e, st, ["C16"], "the answer is an error", V(T, erep, answers[0][3]).f("response").is_("Err"))
    return f


def field(ex, st, sty, sref, name): return deep(ex, st, Ref(sref.cell, sref.path + (("f", ex.T.fidx(sty, name), sty),)))


@contract("analysis_run", ALL, exact(MT + "analysis::AnalysisWorker::run"), models=conc.CONC)
def c_analysis_run(prog, ex, inst):
    W = World(ex)
    T = ex.T
    sty = T.t[inst["locals"][1]]["to"]
    areq, ereq, erep = tid(T, MT + "analysis::AnalysisRequest"), tid(T, MT + "executor::ExecutorRequest"), tid(T, MT + "executor::ExecutorResponse")
    box = {}
    rnd = analysis_round(W, T, areq, ereq, erep, lambda: box["chan"])
    def setup(st):
        a = symargs(ex, st, inst)
        box["chan"], box["stop"] = field(ex, st, sty, a[0], "send_channel"), flag(ex, st, sty, a[0], "shutdown_signal")
        limited(ex, st, a[0])
        return a
    alive = Alive("an analyser", lambda: box["stop"])
    def judge(e, st, events, how, value):
        no = z3.BoolVal(False)
        alive.round(e, st, events, how)
        alone(e, st, events, "an analyser")
        got = ev(events, "got")
        if len(got) > 1: prove(e, st, ["C16"], "every request taken is dealt with before the next", no); return
        if len(got) == 1: rnd(e, st, events, V(T, areq, got[0][3]))
        else: prove(e, st, ["C14", "C16"], "nothing is queued or answered without a request", z3.BoolVal(not ev(events, "chan")))
        prove(e, st, ["C15", "C14"], "an analyser executes nothing and raises no flag", z3.BoolVal(not ev(events, "interpret") and not ev(events, "store")))
        if how == "end" : prove(e, st, ["C15"], "an analyser stops only when told to", z3.Or([z3.And(l[1] == box["stop"], l[2]) for l in ev(events, "load")] + [no]))
    Server(prog, ex, inst, setup, judge, inner=alive.inner)


# ------------------------------------------------------------------ the listeners
@contract("listener_run", ALL, exact(LW + "::run"), models=conc.CONC)
def c_listener_run(prog, ex, inst):
    W = World(ex)
    T = ex.T
    sty = T.t[inst["locals"][1]]["to"]
    areq, erep = tid(T, MT + "analysis::AnalysisRequest"), tid(T, MT + "executor::ExecutorResponse")
    srt = tid(T, "server::io::stream::StreamRequest")
    box = {}
    def setup(st):
        a = symargs(ex, st, inst)
        box["chan"], box["stop"] = field(ex, st, sty, a[0], "send_channel"), flag(ex, st, sty, a[0], "shutdown_signal")
        limited(ex, st, a[0])
        return a
    alive = Alive("a listener", lambda: box["stop"])
    def judge(e, st, events, how, value):
        no, yes = z3.BoolVal(False), z3.BoolVal(True)
        alive.round(e, st, events, how)
        alone(e, st, events, "a listener")
        recv = [x for x in ev(events, "recv") if x[1] is not None]
        replies, chans, got = ev(events, "reply"), ev(events, "chan"), ev(events, "got")
        prove(e, st, ["C14", "C15"], "a listener executes nothing and raises no flag", z3.BoolVal(not ev(events, "interpret") and not ev(events, "store")))
        if how == "end": prove(e, st, ["C15"], "a listener stops only when told to", z3.Or([z3.And(l[1] == box["stop"], l[2]) for l in ev(events, "load")] + [no]))
        if len(recv) > 1: prove(e, st, ["C16"], "every request received is answered before the next", no); return
        if not recv:
            prove(e, st, ["C14", "C16"], "nothing is queued or answered without a request", z3.BoolVal(not replies and not chans))
            return
        q = V(T, srt, recv[0][1])
        req, A = q.f("request"), W.auth(q.f("headers").t)
        ans = None
        if len(replies) == 0: prove(e, st, ["C16"], "a request with a sender is answered", q.f("sender").is_("None"))
        else:
            ans = W.R(replies[0][2])
            if len(replies) > 1: prove(e, st, ["C16"], "a request is answered at most once", no)
            prove(e, st, ["C16"], "the answer goes to the sender of the request", z3.And(q.f("sender").is_("Some"), q.f("sender").get("Some") == replies[0][1]))
        if len(chans) > 1: prove(e, st, ["C14", "C16"], "a request is passed on at most once", no); return
        if not chans:
            prove(e, st, ["C16"], "an admitted request is passed on", z3.Not(z3.And(W.authok(A), req.is_("Ok"))))
            if ans is not None:
                prove(e, st, ["C14", "C16"], "a request that is not passed on is answered with the error that stopped it", z3.Or(W.authbad(A, ans), W.same_err(req, ans)))
                prove(e, st, ["C14"], "a user who is turned down gets an authentication, authorisation or service error", z3.Implies(z3.And(z3.Not(W.authok(A)), req.is_("Ok")), W.authbad(A, ans)))
            return
        c = chans[0]
        if c[2] != T.name(areq): prove(e, st, ["C14"], "requests go to the analysers only", no); return
        m = V(T, areq, c[3])
        prove(e, st, ["C14"], "only an admitted request is passed on", W.authok(A))
        prove(e, st, ["C14"], "it is passed on at exactly the user's level", m.f("authorization") == W.level(A))
        prove(e, st, ["C16"], "only a request that was read is passed on, with its own text", z3.And(req.is_("Ok"), m.f("request") == req.get("Ok")))
        prove(e, st, ["C16"], "requests are queued for the analysers of this server", c[1] == box["chan"])
        # the reply channel is one made for this request
        made = ev(events, "channel")
        s = m.f("sender")
        prove(e, st, ["C16"], "the reply channel is made for this request", z3.And(s.is_("Some"), z3.Or([s.get("Some") == x[1] for x in made] + [no])))
        if ans is None: return
        if not c[4]:
            prove(e, st, ["C16"], "a request that cannot be passed on is answered with a service error", W.errkind(ans, "InternalError"))
            return
        tries = [x for x in events if x[0] in ("got", "nogot")]
        rx = conc.RXOF(e, s.get("Some").ty, rxty(T, s.get("Some").ty))(s.get("Some").t)
        mine = [x for x in tries if x[0] == "got"]
        if mine:
            x = mine[0]
            prove(e, st, ["C16"], "the outcome is awaited on the request's own reply channel", x[1] == rx)
            prove(e, st, ["C16"], "the answer is the outcome of this request", ans == V(T, erep, x[3]).f("response"))
        else:
            prove(e, st, ["C16"], "a request without an outcome in time is answered with a service error", z3.And(W.errkind(ans, "InternalError"), z3.Or([x[1] == rx for x in tries] + [no])))
    Server(prog, ex, inst, setup, judge, inner=alive.inner)


def rxty(T, txty): return tid(T, T.name(txty).replace("mpsc::Sender<", "mpsc::Receiver<", 1))


# ------------------------------------------------------------------ background expiry
@contract("expiration_run", ["C14", "C16"], exact(MT + "expiration::ExpirationWorker::run"), models=conc.CONC)
def c_expire_run(prog, ex, inst): expiry(prog, ex, inst)


def expiry(prog, ex, inst):
    """the only requests without a user: they run a pass over expired keys and nothing else"""
    W = World(ex)
    T = ex.T
    ereq = tid(T, MT + "executor::ExecutorRequest")
    ety = tid(T, "server::analysis::statements::Statement")
    def setup(st): return symargs(ex, st, inst)
    def check(e, st, events):
        for c in ev(events, "chan"):
            if c[2] != T.name(ereq): prove(e, st, ["C14"], "the expiry worker only sends requests to the executor", z3.BoolVal(False)); continue
            q = V(T, ereq, c[3])
            s = q.f("request").f("statements")
            ln, arr, mk = T.vec_fns(ety)
            prove(e, st, ["C14"], "an internal request runs passes over expired keys and nothing else",
                  z3.And(ln(s.t) == 1, V(T, ety, z3.Select(arr(s.t), 0)).is_("ExpireKeys")))
            prove(e, st, ["C16"], "an internal request has no reply channel", q.f("sender").is_("None"))
    def judge(e, st, events, how, value): check(e, st, events)
    ex.need_termination = False
    ex.on_back = lambda e, st, fr, rec, events: check(e, st, events)
    ex.loop_mode = lambda e, st, fr, h: "inv"
    st = State()
    st.ghost["sends_succeed"] = True
    start_server(ex, inst, st, setup(st), lambda e, s, v: check(e, s, s.events))


@contract("expiration_rounds", ["C14", "C16", "C19", "C20", "C21"], exact(MT + "expiration::ExpirationWorker::run"), models=conc.CONC)
def c_expire_rounds(prog, ex, inst):
    """the rounds of an expiry worker as its constructor makes it (the thread works on a copy with the
    same values: contract expiration_start)"""
    W = World(ex)
    T = ex.T
    new = prog.crate.find(MT + "expiration::ExpirationWorker::new")
    if new is None: raise Lost("the constructor of the expiry worker")
    sty = T.t[inst["locals"][1]]["to"]
    ereq = tid(T, MT + "executor::ExecutorRequest")
    ety = tid(T, "server::analysis::statements::Statement")
    ln, arr, mk = T.vec_fns(ety)
    box = {}
    alive = Alive("the expiry worker", lambda: box["stop"])
    def setup(st):
        made = []
        def built(e, s): made.append((s, s.cells[s.ghost["ret"]]))
        ex.on_done = built
        a = symargs(ex, st, new)
        ex.start(new, st, a)
        ex.run(st)
        if len(made) != 1: raise Unsupported("the constructor of the expiry worker branches")
        s, v = made[0]
        tx = [ex.encode(s, x, new["locals"][i + 1]) for i, x in enumerate(a)]
        x = V(T, sty, ex.encode(s, v, sty))
        box["stop"] = conc.INNER(ex, x.f("shutdown_signal").ty)[0](x.f("shutdown_signal").t)
        f, at = conc.INNER(ex, x.f("shutdown_signal").ty)
        prove(ex, s, ["C20"], "the expiry worker is not told to stop at first", z3.Not(conc.INIT(ex, at)(box["stop"])))
        box["queue"] = tx[0]
        s.ghost.pop("ret", None)
        for k in list(s.__dict__):
            setattr(st, k, getattr(s, k))
        st.events[:] = []
        st.ghost["server"] = True
        st.ghost["g:queued"] = iv(0)
        return [ex.ref_to(st, v)]
    def m_count(e, st, a, cx):
        r = conc.m_send(e, st, a, cx)
        st.ghost["g:queued"] = simp(st.ghost["g:queued"] + 1)
        return r
    ex.models.insert(0, (re.compile(r"std::sync::mpsc::Sender::<.*>::send"), m_count))
    def on_head(e, st, fr, header): st.ghost["queued0"] = st.ghost["g:queued"]
    ex.on_head = on_head
    def sends(e, st, events):
        for c in ev(events, "chan"):
            if c[2] != T.name(ereq): prove(e, st, ["C14", "C19"], "the expiry worker only sends requests to the executor", z3.BoolVal(False)); continue
            q = V(T, ereq, c[3])
            s = q.f("request").f("statements")
            prove(e, st, ["C19", "C20"], "expiry passes are queued for the executor of this server", c[1] == box["queue"])
            prove(e, st, ["C14", "C20"], "an internal request runs passes over expired keys and nothing else",
                  z3.And(ln(s.t) == 1, V(T, ety, z3.Select(arr(s.t), 0)).is_("ExpireKeys")))
            prove(e, st, ["C16"], "an internal request has no reply channel", q.f("sender").is_("None"))
    def judge(e, st, events, how, value):
        alone(e, st, events, "the expiry worker")
        alive.round(e, st, events, how)
        sends(e, st, events)
        if how == "next" and "queued0" in st.ghost:
            prove(e, st, ["C20"], "every round of the expiry worker queues a pass", st.ghost["g:queued"] > st.ghost["queued0"])
            for b in ev(events, "block"): prove(e, st, ["C20"], "the expiry worker never waits without a limit", z3.BoolVal(False))
            for w in ev(events, "wait"): prove(e, st, ["C20"], "a round of the expiry worker waits for a minute at most", w[1] <= MINUTE)
        if how == "end": prove(e, st, ["C20"], "the expiry worker stops only when told to", z3.Or(alive.seen(events)))
    def inner(e, st, rec, events):
        alone(e, st, events, "the expiry worker")
        sends(e, st, events)
        alive.inner(e, st, rec, events)
        return not [x for x in events if x[0] in SIGNIFICANT and x[0] != "chan"]
    Server(prog, ex, inst, setup, judge, ghost=("sends_succeed",), inner=inner, rounds=12)


# ------------------------------------------------------------------ the authenticator
@contract("mock_authenticate", ["C14"], exact("<server::auth::MockAuthenticator as server::auth::AuthenticationService>::authenticate"), models=conc.CONC)
def c_auth(prog, ex, inst):
    """the documented table of users"""
    W = World(ex)
    T = ex.T
    st = State()
    a = symargs(ex, st, inst)
    m = deep(ex, st, a[1])
    o = T.opt(m.vty)
    x = z3.Select(m.arr, ex.lit("Username"))
    name = o[4](x)
    lvl = tid(T, "server::auth::AuthorizationLevel")
    def done(e, s, v):
        A = V(T, W.auth_t, ex.encode(s, v, W.auth_t))
        has = o[3](x)
        prove(e, s, ["C14"], "without a user name the service fails", z3.Implies(z3.Not(has), z3.And(A.is_("Err"), A.get("Err").is_("InternalError"))))
        prove(e, s, ["C14"], "a rejected user is not authenticated", z3.Implies(z3.And(has, name == ex.lit("unauthenticated")), z3.And(A.is_("Ok"), A.get("Ok").is_("Unauthenticated"))))
        u = A.get("Ok")
        known = []
        for n, l in (("admin", "Admin"), ("write", "Write"), ("read", "Read")):
            prove(e, s, ["C14"], "user %s has level %s" % (n, l), z3.Implies(z3.And(has, name == ex.lit(n)),
                  z3.And(A.is_("Ok"), u.is_("Authenticated"), u.get("Authenticated", 1).is_("Some"), u.get("Authenticated", 1).get("Some").is_(l), u.get("Authenticated", 0) == name)))
            known.append(name == ex.lit(n))
        prove(e, s, ["C14"], "no other user has a level", z3.Implies(z3.And(has, z3.Not(z3.Or(known))), z3.Not(W.authok(A))))
        prove(e, s, ["C14"], "every other user is authenticated without a level", z3.Implies(z3.And(has, name != ex.lit("unauthenticated"), z3.Not(z3.Or(known))),
              z3.And(A.is_("Ok"), u.is_("Authenticated"), u.get("Authenticated", 0) == name)))
    start(ex, inst, st, a, done)


# ------------------------------------------------------------------ starting the workers
def thunk(rx): return [conc.abstract(rx)] + conc.CONC


def calls(events, name): return [e for e in events if e[0] == "call" and e[1] == name]


def struct_view(ex, st, v, ty): return V(ex.T, ty, ex.encode(st, v, ty))


KINDS = {"shutdown_signal": ["C15", "C21"], "shutdown_flag": ["C15", "C21"], "start_shutdown_flag": ["C15", "C21"], "authenticator": ["C14"], "interpreter": ["C16", "C19", "C20"]}


def worker_start(name, fn, run, sty_name):
    @contract(name, ALL + ["C20"], exact(fn), models=thunk(re.escape(run)))
    def c(prog, ex, inst):
        """the thread runs a worker that shares every channel, flag and service with the one started"""
        T = ex.T
        sty = T.t[inst["locals"][1]]["to"]
        st = State()
        a = symargs(ex, st, inst)
        before = struct_view(ex, st, deep(ex, st, a[0]), sty)
        def done(e, s, v):
            cs = calls(s.events, "run")
            prove(e, s, ["C16", "C19", "C20", "C21"], "a thread is started for the worker", z3.BoolVal(len(ev(s.events, "spawn")) == 1 and len(cs) == 1))
            if len(cs) != 1: return
            if not is_t(cs[0][2][0]): raise Unsupported("worker of another shape")
            w = V(T, sty, cs[0][2][0])
            after = struct_view(e, s, deep(e, s, a[0]), sty)
            for n, *_ in T.variants(sty)[0]["fields"]:
                if n == "thread":
                    hs = ev(s.events, "spawn")
                    prove(e, s, ["C15", "C21"], "the thread can be joined", z3.And(after.f(n).is_("Some"), after.f(n).get("Some") == hs[0][1]))
                    continue
                if T.name(w.f(n).ty) in ("std::time::Duration", "usize"):
                    prove(e, s, ["C20", "C21"], "the worker in the thread has the same %s" % n, w.f(n) == before.f(n))
                if "::sync::" not in T.name(w.f(n).ty): continue
                prove(e, s, KINDS.get(n, ["C16", "C19", "C20"]), "the worker in the thread has the same %s" % n, z3.And(w.f(n) == before.f(n), after.f(n) == before.f(n)))
        start(ex, inst, st, a, done)


worker_start("executor_start", MT + "executor::Executor::start", MT + "executor::Executor::run", MT + "executor::Executor")
worker_start("analysis_start", MT + "analysis::AnalysisWorker::start", MT + "analysis::AnalysisWorker::run", MT + "analysis::AnalysisWorker")
worker_start("listener_start", LW + "::start", LW + "::run", LW)
worker_start("expiration_start", MT + "expiration::ExpirationWorker::start", MT + "expiration::ExpirationWorker::run", MT + "expiration::ExpirationWorker")


# ------------------------------------------------------------------ the pools
def small(c):
    """where a loop over the workers is not proved: pools of a few workers, with every round executed"""
    def run(prog, ex, inst):
        n0 = len(ex.obls)
        c(prog, ex, inst, None)
        if ex.undecided or not any(o.status == "failed" for o in ex.obls[n0:]): return
        keep, definite = ex.obls[n0:], []
        if any(o.status == "failed" and not o.havoced for o in keep): return
        ex.max_unroll = 8
        for k in (1, 2, 3):
            del ex.obls[n0:]
            try: c(prog, ex, inst, k)
            except Unsupported as e:
                if loops.DEBUG: print("small", k, e)
                continue
            finally: definite += [o for o in ex.obls[n0:] if o.status == "failed" and not o.havoced]
            if definite: break
        if loops.DEBUG: print("small", ex.undecided, definite)
        ex.obls[n0:] = keep + definite
        del ex.undecided[:]
    return run


def pool_new(name, fn, shared):
    """shared: field of the worker -> index of the argument it must be"""
    @contract(name, ALL, exact(fn), models=conc.CONC)
    @small
    def c(prog, ex, inst, size):
        T = ex.T
        pty = inst["locals"][0]
        wi = T.fidx(pty, "workers")
        wty = T.arg(T.fields(pty)[wi], 0)
        ln, arr, mk = T.vec_fns(wty)
        J = fresh(IntS, "someworker")
        st = State()
        st.add(J >= 0)
        a = symargs(ex, st, inst)
        at = [ex.encode(st, x, inst["locals"][i + 1]) for i, x in enumerate(a)]
        if size: st.add(at[0] == size)
        def good(w, field, flag):
            v = w.f(field)
            return v == at[shared[field]] if field in shared else v == flag
        def spec(e, L):
            out = []
            for l in L.vecs:
                if L.entry[l].ety != wty: continue
                for f in shared:
                    out.append(Cand("sim %s of every worker" % f, lambda S, l=l, f=f: z3.Implies(J < S[l].len, good(V(T, wty, z3.Select(S[l].arr, J)), f, None))))
                for n, *_ in T.variants(wty)[0]["fields"]:
                    if T.name(T.fields(wty)[T.fidx(wty, n)]) == "std::time::Duration":
                        out.append(Cand("sim limited %s" % n, lambda S, l=l, n=n: z3.Implies(J < S[l].len, V(T, wty, z3.Select(S[l].arr, J)).f(n).t <= MINUTE)))
                def flagc(S, l=l):
                    cells = [v for v in S.st.cells.values() if isinstance(v, Adt) and v.ty == pty]
                    if len(cells) != 1: return None
                    try: pf = S.ex.encode(S.st, cells[0].f[T.fidx(pty, "shutdown_signal")], T.fields(pty)[T.fidx(pty, "shutdown_signal")])
                    except Unsupported: return None
                    return z3.Implies(J < S[l].len, V(T, wty, z3.Select(S[l].arr, J)).f("shutdown_signal") == pf)
                out.append(Cand("sim flag of every worker", flagc))
            return out
        ex.loop_spec = spec
        ex.loop_mode = lambda e, s, fr, h: "inv" if size is None else "unroll"
        def done(e, s, v):
            p = V(T, pty, e.encode(s, v, pty))
            ws = p.f("workers")
            w = V(T, wty, z3.Select(arr(ws.t), J))
            inside = J < ln(ws.t)
            prove(e, s, ["C16"], "the pool has as many workers as it was asked for", ln(ws.t) == at[0])
            for f in shared:
                prove(e, s, KINDS.get(f, ["C16", "C19"]), "every worker has the given %s" % f, z3.Implies(inside, w.f(f) == at[shared[f]]))
            prove(e, s, ["C15", "C21"], "every worker heeds the shutdown signal of its pool", z3.Implies(inside, w.f("shutdown_signal") == p.f("shutdown_signal")))
            waits_limited(e, s, w, ["C21"], "no single wait of a worker is longer than a minute", inside)
            f, x = conc.INNER(e, p.f("shutdown_signal").ty)
            prove(e, s, ["C15", "C16", "C21"], "the shutdown signal is not raised at first", z3.Not(conc.INIT(e, x)(f(p.f("shutdown_signal").t))))
        start(ex, inst, st, a, done)


from loops import Cand
pool_new("analysis_pool_new", MT + "analysis::AnalysisPool::new", {"send_channel": 1, "receive_channel": 2})
pool_new("listener_pool_new", LP + "::new", {"send_channel": 1, "receive_channel": 2, "authenticator": 3})


def pool_start(name, fn, wstart):
    def m_start(ex, st, a, cx):
        ix = [p[1] for p in a[0].path if p[0] == "i"] if isinstance(a[0], Ref) else []
        if len(ix) != 1: raise Unsupported("a worker that is not in the pool")
        st.ghost["g:started"] = simp(st.ghost["g:started"] + z3.If(ix[0] == ex.someone, iv(1), iv(0)))
        return ex.zst(cx.dty) if hasattr(ex, "zst") else None
    @contract(name, ["C16", "C20", "C21"], exact(fn), models=[(re.compile(re.escape(wstart)), m_start)] + conc.CONC)
    @small
    def c(prog, ex, inst, size):
        T = ex.T
        pty = T.t[inst["locals"][1]]["to"]
        J = ex.someone = fresh(IntS, "someworker")
        st = State()
        a = symargs(ex, st, inst)
        n = deep(ex, st, Ref(a[0].cell, a[0].path + (("f", T.fidx(pty, "workers"), pty),)))
        n = n.len if isinstance(n, VecV) else T.vec_fns(T.arg(T.fields(pty)[T.fidx(pty, "workers")], 0))[0](n)
        st.add(z3.And(J >= 0, J < n))
        if size: st.add(n == size)
        st.ghost["g:started"] = iv(0)
        def spec(e, L):
            gs = [l for l in L.leaves if l.key[0] == "g"]
            return [Cand("sim started", lambda S, l=l, g=g: S[g] == z3.If(J < S[l], 1, 0)) for g in gs for l in L.ints if l.key[0] != "g"]
        ex.loop_spec = spec
        ex.loop_mode = lambda e, s, fr, h: "inv" if size is None else "unroll"
        def done(e, s, v): prove(e, s, ["C16"], "every worker of the pool is started once", s.ghost["g:started"] == 1)
        start(ex, inst, st, a, done)


pool_start("analysis_pool_start", MT + "analysis::AnalysisPool::start", MT + "analysis::AnalysisWorker::start")
pool_start("listener_pool_start", LP + "::start", LW + "::start")


# ------------------------------------------------------------------ stopping
def m_store(ex, st, a, cx):
    """counts how often the signal of the worker in question was raised"""
    r = conc.m_atomic(ex, st, a, cx)
    e = st.events[-1]
    if e[0] == "store" and e[1].sort().eq(ex.stopflag.sort()):
        st.ghost["g:raised"] = simp(st.ghost["g:raised"] + z3.If(z3.And(e[1] == ex.stopflag, e[2]), iv(1), iv(0)))
        prove(ex, st, ["C21"], "a stop signal is not taken back", z3.Or(e[1] != ex.stopflag, e[2]))
    return r


def m_joined(ex, st, a, cx):
    h = a[0]
    if h.sort().eq(ex.handle.sort()):
        prove(ex, st, ["C21"], "a worker is told to stop before it is waited for", z3.Implies(h == ex.handle, st.ghost["g:raised"] >= 1))
        st.ghost["g:joined"] = simp(st.ghost["g:joined"] + z3.If(h == ex.handle, iv(1), iv(0)))
    return conc.m_join(ex, st, a, cx)


STOPPING = [(re.compile(r"std::sync::atomic::Atomic(Bool)?(::<bool>)?::(store|swap|fetch_or)"), m_store), (re.compile(r"std::thread::JoinHandle::<.*>::join"), m_joined)]


def worker_stop(name, fn, stop):
    @contract(name, ["C21"], exact(fn), models=STOPPING + conc.CONC)
    def c(prog, ex, inst):
        T = ex.T
        sty = T.t[inst["locals"][1]]["to"]
        st = State()
        a = symargs(ex, st, inst)
        ex.stopflag = flag(ex, st, sty, a[0], stop)
        th = struct_view(ex, st, deep(ex, st, a[0]), sty).f("thread")
        st.add(th.is_("Some"))
        ex.handle = th.get("Some").t
        st.ghost["g:raised"], st.ghost["g:joined"] = iv(0), iv(0)
        def done(e, s, v):
            prove(e, s, ["C21"], "a worker that is stopped is told so", s.ghost["g:raised"] >= 1)
            prove(e, s, ["C21"], "a worker that is stopped is waited for", s.ghost["g:joined"] >= 1)
        start(ex, inst, st, a, done)


worker_stop("executor_stop", MT + "executor::Executor::stop", "shutdown_flag")
worker_stop("expiration_stop", MT + "expiration::ExpirationWorker::stop", "shutdown_signal")


def pool_stop(name, fn):
    @contract(name, ["C21"], exact(fn), models=STOPPING + conc.CONC)
    @small
    def c(prog, ex, inst, size):
        T = ex.T
        pty = T.t[inst["locals"][1]]["to"]
        wty = T.arg(T.fields(pty)[T.fidx(pty, "workers")], 0)
        J = fresh(IntS, "someworker")
        st = State()
        a = symargs(ex, st, inst)
        ws = deep(ex, st, Ref(a[0].cell, a[0].path + (("f", T.fidx(pty, "workers"), pty),)))
        n, arr = (ws.len, ws.arr) if isinstance(ws, VecV) else (lambda f: (f[0](ws), f[1](ws)))(T.vec_fns(wty))
        st.add(z3.And(J >= 0, J < n))
        if size: st.add(n == size)
        w0 = V(T, wty, z3.Select(arr, J))
        ex.stopflag = flag(ex, st, pty, a[0], "shutdown_signal")
        f, x = conc.INNER(ex, w0.f("shutdown_signal").ty)
        # every worker heeds the signal of its pool (contract of the constructor); its thread was started
        st.add(f(w0.f("shutdown_signal").t) == ex.stopflag)
        st.add(w0.f("thread").is_("Some"))
        ex.handle = w0.f("thread").get("Some").t
        st.ghost["g:raised"], st.ghost["g:joined"] = iv(0), iv(0)
        def spec(e, L):
            gs = {l.key[1]: l for l in L.leaves if l.key[0] == "g"}
            vs = [l for l in L.vecs if L.entry[l].ety == wty]
            out = []
            if "g:raised" in gs: out.append(Cand("sim told", lambda S: S[gs["g:raised"]] >= 1))
            for v in vs: out.append(Cand("sim same worker", lambda S, v=v: z3.Select(S[v].arr, J) == w0.t))
            for l in L.ints:
                if l.key[0] == "g": continue
                if "g:raised" in gs: out.append(Cand("sim told so far", lambda S, l=l: z3.Implies(J < S[l], S[gs["g:raised"]] >= 1)))
                if "g:joined" in gs: out.append(Cand("sim joined so far", lambda S, l=l: z3.Implies(J < S[l], S[gs["g:joined"]] >= 1)))
                for v in vs: out.append(Cand("sim worker ahead", lambda S, l=l, v=v: z3.Implies(J >= S[l], z3.Select(S[v].arr, J) == w0.t)))
            return out
        ex.loop_spec = spec
        ex.loop_mode = lambda e, s, fr, h: "inv" if size is None else "unroll"
        def done(e, s, v):
            prove(e, s, ["C21"], "every worker of a pool that is stopped is told so", s.ghost["g:raised"] >= 1)
            prove(e, s, ["C21"], "every worker of a pool that is stopped is waited for", s.ghost["g:joined"] >= 1)
        start(ex, inst, st, a, done)


pool_stop("analysis_pool_stop", MT + "analysis::AnalysisPool::stop")
pool_stop("listener_pool_stop", LP + "::stop")


# ------------------------------------------------------------------ wiring
@contract("executor_new", ["C15", "C16", "C19", "C20", "C21"], exact(MT + "executor::Executor::new"), models=conc.CONC)
def c_executor_new(prog, ex, inst):
    T = ex.T
    ety = inst["locals"][0]
    st = State()
    a = symargs(ex, st, inst)
    rx = ex.encode(st, a[0], inst["locals"][1])
    fl = ex.encode(st, a[1], inst["locals"][2])
    def done(e, s, v):
        x = V(T, ety, e.encode(s, v, ety))
        prove(e, s, ["C15", "C21"], "the executor raises the shutdown signal it was given", x.f("start_shutdown_flag") == fl)
        inner, at = conc.INNER(e, x.f("shutdown_flag").ty)
        waits_limited(e, s, x, ["C21"], "no single wait of the executor is longer than a minute")
        prove(e, s, ["C15", "C20"], "the executor is not told to stop at first", z3.Not(conc.INIT(e, at)(inner(x.f("shutdown_flag").t))))
        prove(e, s, ["C16", "C19", "C20"], "the executor reads the queue it was given", unwrapped(e, x.f("request_channel")) == rx)
    start(ex, inst, st, a, done)


def unwrapped(ex, v):
    """what is inside an Arc<Mutex<X>>"""
    f, m = conc.INNER(ex, v.ty)
    g, x = conc.CONTENT(ex, m)
    return g(f(v.t))


@contract("coordinator_new", ["C15", "C16", "C19", "C20", "C21"], exact(MT + "coordinator::Coordinator::new"),
          models=[conc.abstract(re.escape(LP + "::new"), "listener pool"), conc.abstract(re.escape(MT + "analysis::AnalysisPool::new"), "analysis pool"),
                  conc.abstract(re.escape(MT + "executor::Executor::new"), "executor"), conc.abstract(re.escape(MT + "expiration::ExpirationWorker::new"), "expiration"),
                  conc.abstract(re.escape("server::io::tcp::TcpStreamHandler::new"), "handler")] + conc.CONC)
def c_coordinator_new(prog, ex, inst):
    T = ex.T
    cty = inst["locals"][0]
    st = State()
    a = symargs(ex, st, inst)
    def one(s, n):
        cs = calls(s.events, n)
        if len(cs) != 1: raise Unsupported("%d times %s" % (len(cs), n))
        return cs[0]
    def done(e, s, v):
        x = V(T, cty, e.encode(s, v, cty))
        lp, ap, xe, xp = one(s, "listener pool"), one(s, "analysis pool"), one(s, "executor"), one(s, "expiration")
        for c, f in ((lp, "listener_pool"), (ap, "analysis_pool"), (xe, "executor"), (xp, "expiration")):
            prove(e, s, ["C15", "C16", "C19", "C20", "C21"], "the coordinator keeps the %s it made" % f, x.f(f) == e.encode(s, c[4], x.f(f).ty))
        ltx, atx, ptx, rx, flag = lp[2][1], ap[2][1], xp[2][0], xe[2][0], xe[2][1]
        etx = tidrx(T, r"std::sync::mpsc::Sender<server::multithreaded::executor::ExecutorRequest>")
        erx = rxty(T, etx)
        ltt = tidrx(T, r"std::sync::mpsc::Sender<server::multithreaded::analysis::AnalysisRequest>")
        prove(e, s, ["C16", "C19"], "the analysers queue requests for the executor", conc.RXOF(e, etx, erx)(atx) == rx)
        prove(e, s, ["C16", "C19", "C20"], "the expiry worker queues requests for the executor", conc.RXOF(e, etx, erx)(ptx) == rx)
        arc = tidrx(T, r"std::sync::Arc<std::sync::Mutex<std::sync::mpsc::Receiver<server::multithreaded::analysis::AnalysisRequest>>>")
        prove(e, s, ["C16"], "the listeners queue requests for the analysers", conc.RXOF(e, ltt, rxty(T, ltt))(ltx) == unwrapped(e, V(T, arc, ap[2][2])))
        prove(e, s, ["C15", "C21"], "the coordinator heeds the signal the executor raises", x.f("start_shutdown") == flag)
        f, at = conc.INNER(e, x.f("start_shutdown").ty)
        prove(e, s, ["C15"], "the shutdown signal is not raised at first", z3.Not(conc.INIT(e, at)(f(x.f("start_shutdown").t))))
    start(ex, inst, st, a, done)


PARTS = [LP, MT + "analysis::AnalysisPool", MT + "executor::Executor", MT + "expiration::ExpirationWorker"]


@contract("coordinator_serve", ["C15", "C16", "C19", "C20", "C21"], exact(MT + "coordinator::Coordinator::serve"),
          models=[conc.abstract(re.escape(p + "::start"), "start " + p) for p in PARTS] + [conc.abstract(re.escape(p + "::stop"), "stop " + p) for p in PARTS] + conc.CONC)
def c_coordinator_serve(prog, ex, inst):
    T = ex.T
    cty = T.t[inst["locals"][1]]["to"]
    box = {}
    def setup(st):
        a = symargs(ex, st, inst)
        box["flag"] = flag(ex, st, cty, a[0], "start_shutdown")
        box["self"] = a[0]
        return a
    def judge(e, st, events, how, value):
        seen = z3.Or([z3.And(l[1] == box["flag"], l[2]) for l in ev(events, "load")] + [z3.BoolVal(False)])
        stops = [c for c in ev(events, "call") if c[1].startswith("stop ")]
        # the field of the coordinator is the flag throughout
        if how == "end":
            prove(e, st, ["C15", "C20"], "the server stops only when the shutdown signal was raised", seen)
            order = [c[1][5:] for c in stops]
            for p in PARTS: prove(e, st, ["C21"], "%s is stopped before the server ends" % p.split("::")[2], z3.BoolVal(p in order))
            if all(p in order for p in PARTS):
                first, last = order.index, lambda p: len(order) - 1 - order[::-1].index(p)
                prove(e, st, ["C21"], "the analysers are stopped after the listeners", z3.BoolVal(last(PARTS[0]) < first(PARTS[1])))
                prove(e, st, ["C21"], "the executor is stopped after the analysers", z3.BoolVal(last(PARTS[1]) < first(PARTS[2])))
        else:
            prove(e, st, ["C15", "C21"], "the server stops once the shutdown signal is raised", z3.Not(seen))
            prove(e, st, ["C15", "C20", "C21"], "nothing is stopped before the shutdown signal is raised", z3.BoolVal(not stops))
            prove(e, st, ["C21"], "the server looks at the shutdown signal in every round", z3.Or([l[1] == box["flag"] for l in ev(events, "load")] + [z3.BoolVal(False)]))
            prove(e, st, ["C21"], "the server never waits without a limit", z3.BoolVal(not ev(events, "block")))
            for w in ev(events, "wait"):
                if is_t(w[1]): prove(e, st, ["C21"], "no single wait of the server is longer than a minute", w[1] <= MINUTE)
        prove(e, st, ["C15"], "the coordinator raises no signal itself", z3.BoolVal(not ev(events, "store")))
    ex.on_head = lambda e, st, fr, h: prove(e, st, ["C16", "C19", "C20", "C21"], "every kind of worker is started once",
        z3.BoolVal(sorted(c[1] for c in ev(st.events, "call")) == sorted("start " + p for p in PARTS))) if not ev(st.events, "head")[:-1] else None
    Server(prog, ex, inst, setup, judge)
