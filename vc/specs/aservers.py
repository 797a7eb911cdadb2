"""Contracts of the asynchronous server (the binary async_server): C14, C15, C16.  Its tasks are judged
round by round like the threads of specs/servers.py."""
from engine import *
import conc, aio, loops
from models import deep
from specs.servers import V, World, Server, tid, tidrx, ev, unwrapped, rxty, start_server, calls, alone, MINUTE, SIGNIFICANT

ALL = ["C14", "C15", "C16", "C19"]

A = "async_server::"
MODELS = aio.AIO + conc.CONC
CR = "async_server"
RESP = r"std::result::Result<server::analysis::interpreter::InterpreterResponse, server::error::ServerError>"


class AW(World):
    def __init__(self, ex):
        World.__init__(self, ex)
        T = self.T
        self.rtx = tidrx(T, r"tokio::sync::mpsc::Sender<%s>" % RESP)
        self.ereq = tidrx(T, r"\(server::analysis::interpreter::InterpreterRequest, std::option::Option<tokio::sync::mpsc::Sender<%s>>\)" % RESP)
        self.areq = tidrx(T, r"\(std::string::String, server::auth::AuthorizationLevel, tokio::sync::mpsc::Sender<%s>\)" % RESP)
        self.srt = tid(T, "server::io::tcp_async::StreamRequest")


def task(name):
    def f(p):
        i = p.crate.find(A + name + "::{closure#0}")
        if i is None: raise Lost("task %s not found" % name)
        return i
    return f


def arguments(ex, st, inst): return [ex.sym(st, t, "arg%d" % i) for i, t in enumerate(aio.upvar_types(ex, inst))]


def the(ex, inst, args, pattern):
    """the only argument of a type"""
    ts = aio.upvar_types(ex, inst)
    m = [i for i, t in enumerate(ts) if re.fullmatch(pattern, ex.T.name(t))]
    if len(m) != 1: raise Unsupported("%d arguments of type %s" % (len(m), pattern))
    return args[m[0]], ts[m[0]]


def tx(pattern): return r"tokio::sync::mpsc::Sender<%s>" % pattern


AREQ = r"\(std::string::String, server::auth::AuthorizationLevel, .*\)"
EREQ = r"\(server::analysis::interpreter::InterpreterRequest, .*\)"


# ------------------------------------------------------------------ the listener
@contract("async_listen", ALL, task("listen_for_requests"), models=[aio.abstract(r"server::io::tcp_async::TcpStreamHandler::new::\{closure#0\}", "bind")] + MODELS, crate=CR)
def c_listen(prog, ex, inst):
    W = AW(ex)
    T = ex.T
    box = {}
    def setup(st):
        up = arguments(ex, st, inst)
        box["chan"] = the(ex, inst, up, tx(AREQ))[0]
        return aio.coroutine(ex, st, inst, up)
    def judge(e, st, events, how, value):
        no, yes = z3.BoolVal(False), z3.BoolVal(True)
        recv, replies, chans = ev(events, "recv"), ev(events, "reply"), ev(events, "chan")
        prove(e, st, ["C14"], "the listener executes nothing", z3.BoolVal(not ev(events, "interpret")))
        alone(e, st, events, "the listener")
        if how == "end": prove(e, st, ["C16"], "the listener never stops", no)
        if len(recv) > 1: prove(e, st, ["C16"], "every request received is answered before the next", no); return
        if not recv:
            prove(e, st, ["C14", "C16"], "nothing is queued or answered without a request", z3.BoolVal(not replies and not chans))
            return
        q = V(T, W.srt, recv[0][1])
        req, A_ = q.f("request"), W.auth(q.f("headers").t)
        ans = None
        if len(replies) == 0: prove(e, st, ["C16"], "a request with a sender is answered", q.f("sender").is_("None"))
        else:
            ans = W.R(replies[0][2])
            if len(replies) > 1: prove(e, st, ["C16"], "a request is answered at most once", no)
            prove(e, st, ["C16"], "the answer goes to the sender of the request", z3.And(q.f("sender").is_("Some"), q.f("sender").get("Some") == replies[0][1]))
        if len(chans) > 1: prove(e, st, ["C14", "C16", "C19"], "a request is passed on at most once", no); return
        if not chans:
            prove(e, st, ["C16"], "an admitted request is passed on", z3.Not(z3.And(W.authok(A_), req.is_("Ok"))))
            if ans is not None:
                prove(e, st, ["C14", "C16"], "a request that is not passed on is answered with the error that stopped it", z3.Or(W.authbad(A_, ans), W.same_err(req, ans)))
                prove(e, st, ["C14"], "a user who is turned down gets an authentication, authorisation or service error", z3.Implies(z3.And(z3.Not(W.authok(A_)), req.is_("Ok")), W.authbad(A_, ans)))
            return
        c = chans[0]
        if c[2] != T.name(W.areq): prove(e, st, ["C14"], "requests go to the analysers only", no); return
        m = V(T, W.areq, c[3])
        prove(e, st, ["C14"], "only an admitted request is passed on", W.authok(A_))
        prove(e, st, ["C14"], "it is passed on at exactly the user's level", m.n(1) == W.level(A_))
        prove(e, st, ["C16"], "only a request that was read is passed on, with its own text", z3.And(req.is_("Ok"), m.n(0) == req.get("Ok")))
        prove(e, st, ["C16"], "requests are queued for the analysers of this server", c[1] == box["chan"])
        made = ev(events, "channel")
        s = m.n(2)
        prove(e, st, ["C16"], "the reply channel is made for this request", z3.Or([s == x[1] for x in made if x[1].sort().eq(s.t.sort())] + [no]))
        if ans is None: return
        if not c[4]:
            prove(e, st, ["C16"], "a request that cannot be passed on is answered with a service error", W.errkind(ans, "InternalError"))
            return
        tries = [x for x in events if x[0] in ("got", "nogot")]
        rx = conc.RXOF(e, s.ty, rxty(T, s.ty))(s.t)
        mine = [x for x in tries if x[0] == "got"]
        if mine:
            prove(e, st, ["C16"], "the outcome is awaited on the request's own reply channel", mine[0][1] == rx)
            prove(e, st, ["C16"], "the answer is the outcome of this request", ans == V(T, W.resp, mine[0][3]))
        else:
            prove(e, st, ["C16"], "a request without an outcome is answered with a service error", z3.And(W.errkind(ans, "InternalError"), z3.Or([x[1] == rx for x in tries] + [no])))
    Server(prog, ex, inst, setup, judge, ghost=("receives_succeed",))


# ------------------------------------------------------------------ the analyser
@contract("async_analyze", ALL, task("analyze_request"), models=MODELS, crate=CR)
def c_analyze(prog, ex, inst):
    W = AW(ex)
    T = ex.T
    box = {}
    def setup(st):
        up = arguments(ex, st, inst)
        box["chan"] = the(ex, inst, up, tx(EREQ))[0]
        return aio.coroutine(ex, st, inst, up)
    def judge(e, st, events, how, value):
        no = z3.BoolVal(False)
        got = ev(events, "got")
        prove(e, st, ["C14"], "the analyser executes nothing", z3.BoolVal(not ev(events, "interpret") and not ev(events, "reply")))
        alone(e, st, events, "the analyser")
        if how == "end": prove(e, st, ["C16"], "the analyser never stops", no)
        if len(got) > 1: prove(e, st, ["C16"], "every request taken is dealt with before the next", no); return
        chans = ev(events, "chan")
        if not got:
            prove(e, st, ["C14", "C16"], "nothing is queued or answered without a request", z3.BoolVal(not chans)); return
        m = V(T, W.areq, got[0][3])
        good, stmts, its_error = W.analysed(m.n(0).t)
        sent = [c for c in chans if c[2] == T.name(W.ereq)]
        answers = [c for c in chans if c[2] == T.name(W.resp)]
        s = m.n(2)
        if len(sent) > 1: prove(e, st, ["C16", "C14", "C19"], "a request is queued for execution at most once", no); return
        if len(sent) == 0:
            prove(e, st, ["C16"], "a well-formed request is queued for execution", z3.Not(good))
            if len(answers) != 1: prove(e, st, ["C16"], "a request that fails to tokenise or parse is answered once", no); return
            prove(e, st, ["C16"], "the error goes to the reply channel of the request", s == answers[0][1])
            prove(e, st, ["C16"], "the answer is the error that stopped the request", its_error(W.R(answers[0][3])))
            return
        q = V(T, W.ereq, sent[0][3])
        prove(e, st, ["C16"], "only a well-formed request is queued for execution", good)
        prove(e, st, ["C16", "C19"], "requests are queued for the executor of this server", sent[0][1] == box["chan"])
        prove(e, st, ["C16", "C19"], "exactly its own statements are queued", q.n(0).f("statements") == stmts)
        prove(e, st, ["C14"], "they are queued at the level the request came with", q.n(0).f("authorization") == m.n(1))
        prove(e, st, ["C16"], "the reply channel of the request is passed on", z3.And(q.n(1).is_("Some"), q.n(1).get("Some") == s))
        if sent[0][4]: prove(e, st, ["C16"], "a request is answered exactly once", z3.BoolVal(not answers))
        else:
            prove(e, st, ["C16"], "a request that cannot be queued is answered", z3.BoolVal(len(answers) == 1))
            for a in answers:
                prove(e, st, ["C16"], "the error goes to the reply channel of the request", s == a[1])
                prove(e, st, ["C16"], "the answer is an error", W.R(a[3]).is_("Err"))
    Server(prog, ex, inst, setup, judge, ghost=("receives_succeed",))


# ------------------------------------------------------------------ the executor
def flag_changes(st, events, flag):
    """(before, after) of every time the flag was held in this round"""
    return [(l[3], st.cells[l[2]]) for l in ev(events, "lock") if is_t(l[3]) and z3.is_bool(l[3]) and l[1].eq(flag) and l[2] in st.cells]


@contract("async_execute", ALL + ["C20"], task("execute_requests"), models=MODELS, crate=CR)
def c_execute(prog, ex, inst):
    W = AW(ex)
    T = ex.T
    box = {}
    def setup(st):
        up = arguments(ex, st, inst)
        a, t = the(ex, inst, up, r"std::sync::Arc<std::sync::Mutex<bool>>")
        box["flag"] = conc.INNER(ex, t)[0](a)
        box["queue"] = the(ex, inst, up, r"tokio::sync::mpsc::Receiver<%s>" % EREQ)[0]
        return aio.coroutine(ex, st, inst, up)
    def on_head(e, st, fr, header): st.ghost["cells0"] = dict(st.cells)
    ex.on_head = on_head
    def store(e, st, events):
        """requests are executed on the store as the round before left it"""
        cur = {}
        if "cells0" not in st.ghost: return
        for i in ev(events, "interpret"):
            if not isinstance(i[1], Ref) or i[1].cell in {l[2] for l in ev(events, "lock")}: e.soft("the store of the executor is behind a lock"); continue
            k = (i[1].cell, i[1].path)
            if k in cur: was = cur[k]
            else:
                s0 = st.copy()
                s0.cells = dict(st.ghost["cells0"])
                try: was = e.read(s0, i[1])
                except (KeyError, Unsupported): was = None
            cur[k] = i[4]
            if len(cur) > 1 or was is None or was is UNINIT: prove(e, st, ["C19", "C20"], "requests are executed on the server's only store", z3.BoolVal(False))
            elif loops.same(was, i[5]): prove(e, st, ["C19", "C20"], "requests are executed on the server's only store", z3.BoolVal(True))
            else:
                ty = tidrx(T, r"server::analysis::interpreter::Interpreter<.*>")
                prove(e, st, ["C19", "C20"], "requests are executed on the server's only store", e.encode(st, was, ty) == e.encode(st, i[5], ty))
    def judge(e, st, events, how, value):
        no = z3.BoolVal(False)
        got, intr, chans = ev(events, "got"), ev(events, "interpret"), ev(events, "chan")
        if how == "end": prove(e, st, ["C15", "C16", "C20"], "the executor runs as long as the server", no)
        if ev(events, "spawn"): e.soft("the executor shares its work with other tasks")
        store(e, st, events)
        prove(e, st, ["C19"], "the store is used by executing requests only", z3.BoolVal(not ev(events, "touch")))
        for g in got: prove(e, st, ["C19", "C20"], "requests are taken from the executor's queue", g[1] == box["queue"])
        if len(got) > 1: prove(e, st, ["C16", "C19"], "every request taken is answered before the next", no); return
        down = no
        if not got: prove(e, st, ["C16", "C14", "C19"], "nothing is executed or sent without a request", z3.BoolVal(not intr and not chans))
        else:
            m = V(T, W.ereq, got[0][3])
            if len(intr) != 1: prove(e, st, ["C16", "C19", "C20"], "a request taken from the queue is executed exactly once", no); return
            q = V(T, W.ireq, intr[0][2])
            prove(e, st, ["C14", "C20"], "it is executed at the level it was queued with", q.f("authorization") == m.n(0).f("authorization"))
            prove(e, st, ["C16", "C19", "C20"], "exactly its statements are executed", q.f("statements") == m.n(0).f("statements"))
            s = m.n(1)
            if len(chans) == 0: prove(e, st, ["C16"], "a request with a reply channel is answered", s.is_("None"))
            elif len(chans) > 1: prove(e, st, ["C16"], "a request is answered at most once", no)
            elif chans[0][2] != T.name(W.resp): prove(e, st, ["C16"], "the executor only answers", no)
            else:
                prove(e, st, ["C16"], "the answer goes to the reply channel of the request", z3.And(s.is_("Some"), s.get("Some") == chans[0][1]))
                prove(e, st, ["C16", "C19"], "the answer is the outcome of the execution", W.R(chans[0][3]) == intr[0][3])
            down = W.shutting(W.R(intr[0][3]))
        # the flag is raised when a shutdown was executed, and changed for no other reason
        fc = flag_changes(st, events, box["flag"])
        last = fc[-1][1] if fc else no
        prove(e, st, ["C15"], "the shutdown flag is raised when a shutdown was executed", z3.Implies(down, last))
        for b, a in fc: prove(e, st, ["C15"], "the shutdown flag is raised for nothing but a shutdown", z3.Implies(z3.Not(down), a == b))
        for b, a in fc: prove(e, st, ["C15"], "the shutdown flag is never taken back", z3.Implies(b, a))
    Server(prog, ex, inst, setup, judge, ghost=("receives_succeed",))


# ------------------------------------------------------------------ background expiry
@contract("async_expire", ["C14", "C16", "C19", "C20"], task("expire_old_keys"), models=MODELS, crate=CR)
def c_expire(prog, ex, inst):
    W = AW(ex)
    T = ex.T
    ety = tid(T, "server::analysis::statements::Statement")
    ln, arr, mk = T.vec_fns(ety)
    box = {}
    def setup(st):
        up = arguments(ex, st, inst)
        box["chan"] = the(ex, inst, up, tx(EREQ))[0]
        st.ghost["g:queued"] = iv(0)
        return aio.coroutine(ex, st, inst, up)
    def on_head(e, st, fr, header): st.ghost["queued0"] = st.ghost["g:queued"]
    ex.on_head = on_head
    def m_count(e, st, a, cx):
        r = conc.m_send(e, st, a, cx)
        st.ghost["g:queued"] = simp(st.ghost["g:queued"] + 1)
        return r
    ex.models.insert(0, aio.future_of(r"tokio::sync::mpsc::Sender::<.*>::send", m_count))
    def judge(e, st, events, how, value):
        alone(e, st, events, "the expiry task")
        if how == "end": prove(e, st, ["C20"], "the expiry task runs as long as the server", z3.BoolVal(False))
        elif "queued0" in st.ghost:
            prove(e, st, ["C20"], "every round of the expiry task queues a pass", st.ghost["g:queued"] > st.ghost["queued0"])
        for b in ev(events, "block"): prove(e, st, ["C20"], "the expiry task never waits without a limit", z3.BoolVal(False))
        for w in ev(events, "wait"): prove(e, st, ["C20"], "a round of the expiry task waits for a minute at most", w[1] <= MINUTE)
        sends(e, st, events)
    def sends(e, st, events):
        for c in ev(events, "chan"):
            if c[2] != T.name(W.ereq): prove(e, st, ["C14"], "the expiry task only sends requests to the executor", z3.BoolVal(False)); continue
            q = V(T, W.ereq, c[3])
            s = q.n(0).f("statements")
            prove(e, st, ["C19", "C20"], "expiry passes are queued for the executor of this server", c[1] == box["chan"])
            prove(e, st, ["C14", "C20"], "an internal request runs passes over expired keys and nothing else", z3.And(ln(s.t) == 1, V(T, ety, z3.Select(arr(s.t), 0)).is_("ExpireKeys")))
            prove(e, st, ["C16"], "an internal request has no reply channel", q.n(1).is_("None"))
        prove(e, st, ["C14"], "the expiry task executes and answers nothing itself", z3.BoolVal(not ev(events, "interpret") and not ev(events, "reply")))
    def inner(e, st, rec, events):
        alone(e, st, events, "the expiry task")
        sends(e, st, events)
        for w in ev(events, "wait"): prove(e, st, ["C20"], "a round of the expiry task waits for a minute at most", w[1] <= MINUTE)
        return not [x for x in events if x[0] in SIGNIFICANT and x[0] != "chan"]
    Server(prog, ex, inst, setup, judge, ghost=("sends_succeed",), inner=inner, rounds=12)


# ------------------------------------------------------------------ wiring
TASKS = ["execute_requests", "analyze_request", "expire_old_keys", "listen_for_requests"]


@contract("async_serve", ["C15", "C16", "C19", "C20"], task("serve"), models=[aio.abstract(A + t + r"::\{closure#0\}", t) for t in TASKS] + MODELS, crate=CR)
def c_serve(prog, ex, inst):
    W = AW(ex)
    T = ex.T
    def setup(st): return aio.coroutine(ex, st, inst, arguments(ex, st, inst))
    def one(st, n):
        c = calls(st.events, n)
        if len(c) != 1: raise Unsupported("%d times %s" % (len(c), n))
        return c[0]
    def typed(c, pattern):
        f = [i for i in prog.crate.insts if i["name"] == c[5]][0]
        ts = aio.upvar_types(ex, f)
        m = [i for i, t in enumerate(ts) if re.fullmatch(pattern, T.name(t))]
        if len(m) != 1: raise Unsupported("arguments of " + c[1])
        return c[2][m[0]], ts[m[0]]
    def flag_of(st):
        a, t = typed(one(st, "execute_requests"), r"std::sync::Arc<std::sync::Mutex<bool>>")
        f, mt = conc.INNER(ex, t)
        return f(a), mt
    def wiring(e, st):
        names = sorted(c[1] for c in ev(st.events, "call"))
        prove(e, st, ["C16", "C19", "C20"], "every task is started once", z3.BoolVal(names == sorted(TASKS)))
        if names != sorted(TASKS): return
        xr, xrt = typed(one(st, "execute_requests"), r"tokio::sync::mpsc::Receiver<.*>")
        ar, art = typed(one(st, "analyze_request"), r"tokio::sync::mpsc::Receiver<.*>")
        for t in ("analyze_request", "expire_old_keys"):
            s, tt = typed(one(st, t), r"tokio::sync::mpsc::Sender<.*>")
            prove(e, st, ["C16", "C19", "C20"], "%s queues requests for the executor" % t, conc.RXOF(e, tt, xrt)(s) == xr)
        s, tt = typed(one(st, "listen_for_requests"), r"tokio::sync::mpsc::Sender<.*>")
        prove(e, st, ["C16"], "the listener queues requests for the analyser", conc.RXOF(e, tt, art)(s) == ar)
        fl, mt = flag_of(st)
        c, x = conc.CONTENT(e, mt)
        prove(e, st, ["C15"], "the shutdown flag is not raised at first", z3.Not(c(fl)))
    def on_head(e, st, fr, h):
        if not ev(st.events, "head")[:-1]: wiring(e, st)
    ex.on_head = on_head
    def judge(e, st, events, how, value):
        no = z3.BoolVal(False)
        fl, mt = flag_of(st)
        # any look at the flag in this round
        fc = flag_changes(st, events, fl)
        seen = z3.Or([b for b, a in fc] + [no])
        if how == "end": prove(e, st, ["C15", "C20"], "the server stops only when the shutdown flag was raised", seen)
        else: prove(e, st, ["C15"], "the server stops once the shutdown flag is raised", z3.And(z3.BoolVal(bool(fc)), z3.Not(seen)))
        for b, a in fc: prove(e, st, ["C15"], "the server does not change the flag itself", a == b)
        prove(e, st, ["C14", "C16", "C19"], "the server itself executes and answers nothing", z3.BoolVal(not ev(events, "interpret") and not ev(events, "reply") and not ev(events, "chan")))
    Server(prog, ex, inst, setup, judge)
    # the only arithmetic of the waiting loop counts its rounds, which take a second each
    if [o for o in ex.obls if o.name == "panic: Overflow" and o.status != "discharged"]: ex.assume_used.add("the round counter of the asynchronous server's waiting loop does not overflow")
    ex.obls[:] = [o for o in ex.obls if not (o.name == "panic: Overflow" and o.status != "discharged")]
