"""Models (assumed contracts) of asynchronous library operations.

A future of the library is a value Opq("future", run=f, args=..., atys=...); polling it runs the operation
and is ready at once (a poll that is pending has no effect and the coroutine later goes on where it
stopped: rustc's translation of async functions and the runtime are assumed).  Coroutines of the code
under contract are executed as functions.  A spawned task is executed where it is spawned, which is
sound for contracts that judge single rounds from an arbitrary state."""
import re, z3
from core import *
from models import deep, some, none, ok, err, unit, payload
import wire, conc

AIO = []


def model(*rxs):
    def d(fn):
        for r in rxs: AIO.append((re.compile(r), fn))
        return fn
    return d


def future(*rxs):
    """the constructor of a library future; f(ex, st, args, cx) is the operation, run when polled"""
    def d(fn):
        def make(ex, st, a, cx): return Opq("future", run=fn, args=tuple(a), atys=tuple(cx.atys), name=cx.name)
        for r in rxs: AIO.append((re.compile(r), make))
        return fn
    return d


def future_of(rx, fn):
    return (re.compile(rx), lambda ex, st, a, cx: Opq("future", run=fn, args=tuple(a), atys=tuple(cx.atys), name=cx.name))


def pinned(ex, st, v):
    """what a Pin<&mut F> points to: (reference, value)"""
    while isinstance(v, Adt) and len(v.f) == 1: v = v.f[0]
    if not isinstance(v, Ref): raise Unsupported("a pinned future of unknown place")
    x = ex.read(st, v)
    while isinstance(x, Ref):
        v = x
        x = ex.read(st, v)
    return v, x


@model(r"<.* as std::future::Future>::poll", r"tokio::.*::\{closure#0\}")
def m_poll(ex, st, a, cx):
    if len(a) != 2: return NotImplemented
    ref, f = pinned(ex, st, a[0])
    if not (isinstance(f, Opq) and f.kind == "future"): return NotImplemented
    out = ex.T.arg(cx.dty, 0)
    c2 = Cx(f.d["name"], f.d["name"], cx.cal, None, list(f.d["atys"]), out, cx.line, cx.target)
    ex.write(st, ref, Opq("done"))
    res = f.d["run"](ex, st, list(f.d["args"]), c2)
    if res is None: return None
    if not isinstance(res, list): res = [(None, res)]
    def wrap(v):
        if isinstance(v, Panic) or v is DIVERGE: return v
        if callable(v): return lambda s: wrap(v(s))
        if isinstance(v, Invoke): raise Unsupported("a future that calls back")
        return Adt(cx.dty, 0, [v])
    return [(c, wrap(v)) for c, v in res]


@model(r"<.* as std::future::IntoFuture>::into_future")
def m_into(ex, st, a, cx): return a[0]


# ------------------------------------------------------------------ streams
STREAM = r"<&?(mut )?tokio::net::TcpStream as tokio::io::Async(Read|Write)Ext>::"
future(STREAM + "read(::<.*>)?")(wire.m_read)
future(STREAM + "write_all")(wire.m_writeall)
future(STREAM + "flush")(wire.m_flush)
future(STREAM + "write")(wire.m_write)
future(r"tokio::net::TcpListener::accept")(wire.m_accept)


@future(r"tokio::net::TcpListener::bind::<.*>")
def f_bind(ex, st, a, cx):
    """binding succeeds (a server that cannot bind does not start)"""
    return ok(ex, cx.dty, ex.sym(st, payload(ex, cx.dty, "Ok"), "listener"))


@future(STREAM + "read_buf(::<.*>)?", STREAM + "shutdown")
def f_unknown(ex, st, a, cx): raise Unsupported("no model of " + cx.name)


@model(r"tokio::net::TcpStream::(set_nodelay|set_ttl)")
def m_streamopt(ex, st, a, cx): return ex.sym(st, cx.dty, "opt")


# ------------------------------------------------------------------ channels
future(r"tokio::sync::mpsc::Sender::<.*>::send")(conc.m_send)


@future(r"tokio::sync::mpsc::Receiver::<.*>::recv")
def f_recv(ex, st, a, cx):
    rx = deep(ex, st, a[0])
    vt = payload(ex, cx.dty)
    def yes(s):
        v = ex.sym(s, vt, "msg")
        s.events.append(("got", rx, conc.tyname(ex, vt), ex.encode(s, v, vt)))
        return some(ex, cx.dty, v)
    def no(s):
        s.events.append(("nogot", rx, conc.tyname(ex, vt)))
        return none(ex, cx.dty)
    if st.ghost.get("receives_succeed"): return yes(st)
    return [(None, yes), (None, no)]


@model(r"tokio::sync::mpsc::Sender::<.*>::try_send")
def m_trysend(ex, st, a, cx):
    """a bounded queue may be full at any time"""
    tx = deep(ex, st, a[0])
    ty = cx.atys[1]
    v = ex.encode(st, a[1], ty)
    et = payload(ex, cx.dty, "Err")
    def done(how):
        def f(s):
            s.events.append(("chan", tx, conc.tyname(ex, ty), v, how is None))
            if how is None: return ok(ex, cx.dty, Adt(payload(ex, cx.dty, "Ok"), 0, []))
            return err(ex, cx.dty, Adt(et, ex.T.vidx(et, how), [ex.decode(s, v, ty)]))
        return f
    return [(None, done(x)) for x in ([None, "Full"] if st.ghost.get("sends_succeed") else [None, "Full", "Closed"])]


@model(r"tokio::sync::mpsc::Sender::<.*>::(max_)?capacity")
def m_capacity(ex, st, a, cx):
    """how many more values fit: whatever the others left"""
    n = fresh(IntS, "room")
    st.add(z3.And(n >= (1 if "max_" in cx.name else 0), n <= I64MAX))
    return n


@model(r"tokio::sync::mpsc::(Unbounded)?Sender::<.*>::is_closed")
def m_closed(ex, st, a, cx):
    return z3.BoolVal(False) if st.ghost.get("sends_succeed") else fresh(BoolS, "closed")


@future(r"tokio::time::sleep", r"tokio::task::yield_now", r"tokio::time::sleep_until")
def f_sleep(ex, st, a, cx):
    if a: st.events.append(("wait", a[0]) if cx.name.endswith("::sleep") else ("block", cx.name))
    return Adt(cx.dty, 0, [])


CANCELLABLE = r"tokio::sync::mpsc::(Sender|Receiver)::|tokio::time::sleep|tokio::net::TcpListener::accept|.*AsyncReadExt>::read"


@future(r"tokio::time::timeout(::<.*>)?")
def f_timeout(ex, st, a, cx):
    """the operation, or nothing at all when it took too long: for operations that have no effect unless they end"""
    inner = a[1]
    if not (isinstance(inner, Opq) and inner.kind == "future" and re.match(CANCELLABLE, inner.d["name"])): raise Unsupported("a time limit on " + (inner.d["name"] if isinstance(inner, Opq) and inner.kind == "future" else "code"))
    it = payload(ex, cx.dty, "Ok")
    n0 = len(st.events)
    def late(s):
        del s.events[n0:]
        s.events.append(("wait", a[0]))
        return err(ex, cx.dty, ex.sym(s, payload(ex, cx.dty, "Err"), "elapsed"))
    c2 = Cx(inner.d["name"], inner.d["name"], cx.cal, None, list(inner.d["atys"]), it, cx.line, cx.target)
    res = inner.d["run"](ex, st, list(inner.d["args"]), c2)
    if res is None: return None
    if not isinstance(res, list): res = [(None, res)]
    def wrap(v):
        if isinstance(v, Panic) or v is DIVERGE: return v
        if callable(v): return lambda s: wrap(v(s))
        if isinstance(v, Invoke): raise Unsupported("a future that calls back")
        return ok(ex, cx.dty, v)
    return [(c, wrap(v)) for c, v in res] + [(None, late)]


# ------------------------------------------------------------------ tasks
@model(r"tokio::(task::)?spawn::<.*>", r"tokio::task::spawn::spawn::<.*>")
def m_spawn(ex, st, a, cx):
    h = fresh(ex.T.sort(cx.dty), "task")
    st.events.append(("spawn", h))
    co = a[0]
    if not (isinstance(co, Adt) and co.ty is not None and ex.T.t[co.ty]["k"] == "coroutine"): raise Unsupported("a task of another kind")
    b = ex.T.t[co.ty].get("body", -1)
    if b < 0 or "blocks" not in ex.c.insts[b]: raise Unsupported("a task without a body")
    inst = ex.c.insts[b]
    m = ex.find_model(inst["name"], inst["def"])
    if m is not None:
        # the task is a function that is known by its contract
        pt = inst["locals"][0]
        if ex.T.name(pt).startswith("std::task::Poll<"):
            c2 = Cx(inst["name"], inst["def"], {"inst": b, "def": inst["def"]}, inst, inst["locals"][1:3], pt, cx.line, cx.target)
            res = m(ex, st, coroutine_args(ex, st, co, inst), c2)
            if res is None: return None
            if res is not NotImplemented:
                def after(v):
                    if isinstance(v, Panic): return v
                    def f(s):
                        if callable(v): v(s)
                        return h
                    return f
                return [(c, after(v)) for c, v in (res if isinstance(res, list) else [(None, res)])]
    return [(None, invoke(ex, st, co, inst, h))]


def invoke(ex, st, co, inst, value):
    return Invoke(inst, coroutine_args(ex, st, co, inst), Ref(ex.new_cell(st, UNINIT)), value)


def coroutine_args(ex, st, co, inst):
    return [Adt(inst["locals"][1], 0, [ex.ref_to(st, co)]), ex.ref_to(st, Opq("context"))]


def coroutine(ex, st, inst, upvars):
    """arguments of the body of an async function for its own arguments"""
    pin = ex.T.t[inst["locals"][1]]
    cty = ex.T.t[pin["variants"][0]["fields"][0][1]]["to"]
    t = ex.T.t[cty]
    if t["k"] != "coroutine" or len(upvars) != len(t["upvars"]): raise Unsupported("an async function of another shape")
    return coroutine_args(ex, st, Adt(cty, 0, list(upvars) + [UNINIT] * len(t["saved"])), inst)


def upvar_types(ex, inst):
    pin = ex.T.t[inst["locals"][1]]
    return ex.T.t[ex.T.t[pin["variants"][0]["fields"][0][1]]["to"]]["upvars"]


def upvars_of(ex, st, a0):
    """(values, types) of the arguments of the coroutine behind a Pin"""
    ref, co = pinned(ex, st, a0)
    if not (isinstance(co, Adt) and co.ty is not None and ex.T.t[co.ty]["k"] == "coroutine"): raise Unsupported("a coroutine of another kind")
    up = ex.T.t[co.ty]["upvars"]
    return list(co.f[:len(up)]), up


def abstract(rx, name):
    """an async function replaced by the event of running it; it returns an arbitrary value"""
    def f(ex, st, a, cx):
        if ex.top_name == cx.name: return NotImplemented
        ex.contract_calls.add(cx.name)
        vs, ts = upvars_of(ex, st, a[0])
        enc = []
        for v, t in zip(vs, ts):
            try: enc.append(conc.enc(ex, st, v, t))
            except Unsupported: enc.append(v)
        r = ex.sym(st, ex.T.arg(cx.dty, 0), "ret")
        st.events.append(("call", name, tuple(enc), tuple(vs), r, cx.name))
        return Adt(cx.dty, 0, [r])
    return (re.compile(rx), f)


# ------------------------------------------------------------------ the streams, by contract
@model(r"server::io::tcp_async::TcpStreamHandler::receive_request::\{closure#0\}")
def m_receive(ex, st, a, cx):
    if ex.top_name == cx.name: return NotImplemented
    ex.contract_calls.add(cx.name)
    vt = ex.T.arg(cx.dty, 0)
    v = ex.sym(st, vt, "request")
    st.events.append(("recv", ex.encode(st, v, vt)))
    return Adt(cx.dty, 0, [v])


@model(r"server::io::tcp_async::TcpStreamSender::send::\{closure#0\}")
def m_reply(ex, st, a, cx):
    if ex.top_name == cx.name: return NotImplemented
    ex.contract_calls.add(cx.name)
    vs, ts = upvars_of(ex, st, a[0])
    s0 = conc.enc(ex, st, vs[0], ts[0])
    r = ex.encode(st, vs[1], ts[1])
    out = ex.T.arg(cx.dty, 0)
    et = payload(ex, out, "Err")
    def yes(s):
        s.events.append(("reply", s0, r, True))
        return Adt(cx.dty, 0, [ok(ex, out, Adt(payload(ex, out, "Ok"), 0, []))])
    def no(s):
        s.events.append(("reply", s0, r, False))
        return Adt(cx.dty, 0, [err(ex, out, ex.sym(s, et, "senderr"))])
    return [(None, yes), (None, no)]
