"""Models (assumed contracts) of threads, channels, locks and flags, and the abstract view the server
contracts take of their neighbours: authentication, tokenising, parsing, interpreting and the streams
are functions or events of which only the contract is known.

Events (in st.events):
  ("auth", headers, result)               ("recv", None | StreamRequest)
  ("interpret", key, request, response, value after, before)   key identifies the interpreter
  ("reply", sender, response, ok)         a response handed to a stream sender
  ("chan", sender, type, value, ok)       a message sent on a channel
  ("got", receiver, type, value)          a message taken from a channel
  ("nogot", receiver, type)
  ("channel", sender, receiver)           a new channel
  ("load", flag, value) ("store", flag, value)
  ("spawn", handle)                       a thread was started; what it does follows at once, or at join
  ("call", name, arguments)               an abstract function
  ("wait", duration)                      a wait that ends after this time at the latest
  ("block", what)                         a wait without a limit
  ("finished", handle, bool)              asked whether a thread has ended
  ("join", handle)                        waited for the end of a thread
  ("touch", name)                         the store was used without the interpreter
"""
import re, z3
from core import *
from models import deep, some, none, ok, err, unit, payload, pathof, strterm, seqval

CONC = []


def model(*rxs):
    def d(fn):
        for r in rxs: CONC.append((re.compile(r), fn))
        return fn
    return d


def tyname(ex, t): return ex.T.name(t)


def enc(ex, st, v, ty):
    while ex.T.t[ty]["k"] == "ref" and not is_t(v):
        ty = ex.T.t[ty]["to"]
        v = ex.read(st, v)
    return ex.encode(st, v, ty)


# ------------------------------------------------------------------ shared ownership
def INNER(ex, arc_ty):
    x = ex.T.arg(arc_ty, 0)
    return z3.Function("inner<%s>" % tyname(ex, arc_ty), ex.T.sort(arc_ty), ex.T.sort(x)), x


def CONTENT(ex, mutex_ty):
    x = ex.T.arg(mutex_ty, 0)
    return z3.Function("content<%s>" % tyname(ex, mutex_ty), ex.T.sort(mutex_ty), ex.T.sort(x)), x


def INIT(ex, atomic_ty): return z3.Function("init<%s>" % tyname(ex, atomic_ty), ex.T.sort(atomic_ty), BoolS)


@model(r"std::sync::Arc::<.*>::new")
def m_arcnew(ex, st, a, cx):
    t = fresh(ex.T.sort(cx.dty), "arc")
    f, x = INNER(ex, cx.dty)
    st.add(f(t) == ex.encode(st, a[0], x))
    return t


@model(r"<std::sync::Arc<.*> as std::clone::Clone>::clone", r"<std::sync::mpsc::Sender<.*> as std::clone::Clone>::clone", r"<tokio::sync::mpsc::Sender<.*> as std::clone::Clone>::clone")
def m_same(ex, st, a, cx): return deep(ex, st, a[0])


@model(r"<std::sync::Arc<.*> as std::(ops::Deref|convert::AsRef|borrow::Borrow)(<.*>)?>::.*")
def m_arcderef(ex, st, a, cx):
    ty = cx.atys[0]
    while ex.T.t[ty]["k"] == "ref": ty = ex.T.t[ty]["to"]
    t = deep(ex, st, a[0])
    f, x = INNER(ex, ty)
    return ex.ref_to(st, ex.decode(st, f(t), x))


@model(r"std::sync::Mutex::<.*>::new")
def m_mutexnew(ex, st, a, cx):
    t = fresh(ex.T.sort(cx.dty), "mutex")
    f, x = CONTENT(ex, cx.dty)
    try: st.add(f(t) == ex.encode(st, a[0], x))
    except Unsupported: pass
    return t


@model(r"std::sync::Mutex::<.*>::(lock|try_lock)")
def m_lock(ex, st, a, cx):
    """what another thread may have put there is arbitrary; locks are not poisoned"""
    ty = cx.atys[0]
    while ex.T.t[ty]["k"] == "ref": ty = ex.T.t[ty]["to"]
    m = deep(ex, st, a[0])
    f, x = CONTENT(ex, ty)
    def yes(s):
        v = f(m) if ex.T.kind(x) == "opaque" else ex.sym(s, x, "shared")
        c = ex.new_cell(s, v)
        s.events.append(("lock", m, c, v))
        return ok(ex, cx.dty, Opq("guard", ref=Ref(c), mutex=m))
    if cx.name.endswith("::lock") or st.ghost.get("exclusive"): return yes(st)
    et = payload(ex, cx.dty, "Err")
    return [(None, yes), (None, lambda s: err(ex, cx.dty, Adt(et, ex.T.vidx(et, "WouldBlock"), [])))]


@model(r"<std::sync::MutexGuard<.*> as std::ops::(Deref|DerefMut)>::.*")
def m_guard(ex, st, a, cx):
    g = deep(ex, st, a[0])
    if not (isinstance(g, Opq) and g.kind == "guard"): raise Unsupported("lock guard")
    return g.d["ref"]


# ------------------------------------------------------------------ flags
@model(r"std::sync::atomic::Atomic(Bool)?(::<bool>)?::new")
def m_atomnew(ex, st, a, cx):
    t = fresh(ex.T.sort(cx.dty), "flag")
    st.add(INIT(ex, cx.dty)(t) == a[0])
    return t


@model(r"std::sync::atomic::Atomic(Bool)?(::<bool>)?::(load|store|swap|fetch_or|fetch_and|fetch_xor|fetch_not|compare_exchange|compare_exchange_weak|into_inner)")
def m_atomic(ex, st, a, cx):
    t = deep(ex, st, a[0])
    op = cx.name.rsplit("::", 1)[1]
    old = fresh(BoolS, "flagval")
    if op == "load":
        st.events.append(("load", t, old))
        return old
    if op == "into_inner":
        st.events.append(("load", t, old))
        return old
    if op.startswith("compare_exchange"):
        def yes(s):
            s.events.append(("load", t, old))
            s.events.append(("store", t, a[2]))
            return ok(ex, cx.dty, old)
        def no(s):
            s.events.append(("load", t, old))
            s.events.append(("store", t, old))      # it keeps the value it has
            return err(ex, cx.dty, old)
        if op.endswith("weak"): return [(old == a[1], yes), (None, no)]
        return [(old == a[1], yes), (old != a[1], no)]
    if op in ("fetch_or", "fetch_and", "fetch_xor"):
        # with the neutral operand it only reads
        neutral = simp(a[1] if op == "fetch_and" else z3.Not(a[1]))
        def reads(s):
            s.events.append(("load", t, old))
            return old
        def writes(s):
            if op == "fetch_xor": s.events.append(("load", t, old))
            s.events.append(("store", t, {"fetch_or": z3.BoolVal(True), "fetch_and": z3.BoolVal(False), "fetch_xor": simp(z3.Not(old))}[op]))
            return old
        return [(neutral, reads), (simp(z3.Not(neutral)), writes)]
    if op == "fetch_not":
        st.events.append(("load", t, old))
        st.events.append(("store", t, simp(z3.Not(old))))
        return old
    st.events.append(("store", t, a[1]))
    return unit(ex, cx) if op == "store" else old


# ------------------------------------------------------------------ channels
def RXOF(ex, txty, rxty): return z3.Function("rxof<%s>" % tyname(ex, txty), ex.T.sort(txty), ex.T.sort(rxty))


@model(r"std::sync::mpsc::(sync_)?channel(::<.*>)?", r"tokio::sync::mpsc::channel(::<.*>)?")
def m_channel(ex, st, a, cx):
    tt, rt = ex.T.fields(cx.dty)
    tx = fresh(ex.T.sort(tt), "tx")
    rx = RXOF(ex, tt, rt)(tx)
    st.events.append(("channel", tx, rx))
    return Adt(cx.dty, 0, [tx, rx])


@model(r"std::sync::mpsc::Sender::<.*>::send")
def m_send(ex, st, a, cx):
    tx = deep(ex, st, a[0])
    ty = cx.atys[1]
    v = ex.encode(st, a[1], ty)
    def done(good):
        def f(s):
            s.events.append(("chan", tx, tyname(ex, ty), v, good))
            if good: return ok(ex, cx.dty, Adt(payload(ex, cx.dty, "Ok"), 0, []))
            et = payload(ex, cx.dty, "Err")
            return err(ex, cx.dty, Adt(et, 0, [ex.decode(s, v, ty)]))
        return f
    if st.ghost.get("sends_succeed"): return done(True)(st)
    return [(None, done(True)), (None, done(False))]


@model(r"std::sync::mpsc::Receiver::<.*>::(recv|try_recv|recv_timeout)")
def m_recv(ex, st, a, cx):
    rx = deep(ex, st, a[0])
    vt = payload(ex, cx.dty, "Ok")
    et = payload(ex, cx.dty, "Err")
    op = cx.name.rsplit("::", 1)[1]
    if op == "recv": st.events.append(("block", rx))
    if op == "recv_timeout": st.events.append(("wait", deep(ex, st, a[1])))
    def yes(s):
        v = ex.sym(s, vt, "msg")
        s.events.append(("got", rx, tyname(ex, vt), ex.encode(s, v, vt)))
        return ok(ex, cx.dty, v)
    def no(s):
        s.events.append(("nogot", rx, tyname(ex, vt)))
        return err(ex, cx.dty, ex.sym(s, et, "recverr"))
    return [(None, yes), (None, no)]


# ------------------------------------------------------------------ threads
def run_closure(ex, st, cv, dest, value):
    cty = cv.ty
    b = ex.T.t[cty].get("body", -1)
    if b < 0: raise Unsupported("closure without a body")
    inst = ex.c.insts[b]
    a0 = inst["locals"][1]
    arg = ex.ref_to(st, cv) if ex.T.t[a0]["k"] == "ref" else cv
    return Invoke(inst, [arg] if inst["argc"] == 1 else [arg, Adt(None, 0, [])], dest, value)


@model(r"std::thread::spawn::<.*>")
def m_spawn(ex, st, a, cx):
    h = fresh(ex.T.sort(cx.dty), "thread")
    cv = a[0]
    if not isinstance(cv, Adt): raise Unsupported("thread body")
    rt = ex.T.t[ex.T.arg(cx.dty, 0)]
    st.events.append(("spawn", h))
    if rt["k"] == "tuple" and not rt["fields"]:
        c = ex.new_cell(st, UNINIT)
        st.ghost["join", h.get_id()] = (h, Ref(c), None)
        return [(None, run_closure(ex, st, cv, Ref(c), h))]
    st.ghost["join", h.get_id()] = (h, None, cv)
    return h


@model(r"std::thread::JoinHandle::<.*>::is_finished")
def m_finished(ex, st, a, cx):
    b = fresh(BoolS, "finished")
    st.events.append(("finished", deep(ex, st, a[0]), b))
    return b


@model(r"std::thread::JoinHandle::<.*>::join")
def m_join(ex, st, a, cx):
    h = a[0]
    st.events.append(("join", h))
    r = st.ghost.get(("join", h.get_id()))
    if r is None:
        et = payload(ex, cx.dty, "Err")
        vt = payload(ex, cx.dty, "Ok")
        return [(None, lambda s: ok(ex, cx.dty, ex.sym(s, vt, "joined"))), (None, lambda s: err(ex, cx.dty, ex.sym(s, et, "panicked")))]
    if r[2] is None: return ok(ex, cx.dty, Adt(payload(ex, cx.dty, "Ok"), 0, []))
    # the body is executed here (its panics are obligations, so the thread has not panicked)
    c = ex.new_cell(st, ok(ex, cx.dty, UNINIT))
    fr = st.frames[-1]
    t = fr.inst["blocks"][fr.bb]["t"]
    ref, _, _ = ex.place(st, fr, t["d"])
    dest = Ref(ref.cell, ref.path + (("v", ex.T.vidx(cx.dty, "Ok"), cx.dty), ("f", 0, None)))
    return [(None, run_closure(ex, st, r[2], dest, ok(ex, cx.dty, UNINIT)))]


@model(r"std::thread::(sleep|yield_now)", r"std::thread::sleep_ms")
def m_sleep(ex, st, a, cx):
    if a: st.events.append(("wait", a[0] if cx.name.endswith("::sleep") else simp(a[0] * 10**6)))
    return unit(ex, cx)


@model(r"std::net::(Ipv4Addr|Ipv6Addr|SocketAddr|SocketAddrV4)::new")
def m_addr(ex, st, a, cx): return ex.sym(st, cx.dty, "addr")


# ------------------------------------------------------------------ the neighbours, by contract
def AUTHF(ex, hs, rt): return z3.Function("authenticate", hs, ex.T.sort(rt))


@model(r"<.* as server::auth::AuthenticationService>::authenticate")
def m_auth(ex, st, a, cx):
    if ex.top_name == cx.name: return NotImplemented
    ex.contract_calls.add(cx.name)
    h = enc(ex, st, a[1], cx.atys[1])
    r = AUTHF(ex, h.sort(), cx.dty)(h)
    st.events.append(("auth", h, r))
    return ex.decode(st, r, cx.dty)


@model(r"server::analysis::tokenizer::Tokenizer(::<.*>)?::new")
def m_toknew(ex, st, a, cx): return Opq("tokenizer", s=strterm(ex, st, a[0]))


def TOK(ex, rt): return z3.Function("tokens_of", StrS, ex.T.sort(rt))


@model(r"server::analysis::tokenizer::Tokenizer(::<.*>)?::tokenize")
def m_tokenize(ex, st, a, cx):
    ex.contract_calls.add(cx.name)
    v = ex.read(st, a[0])
    if not (isinstance(v, Opq) and v.kind == "tokenizer"): raise Unsupported("a tokenizer that was used before")
    ex.write(st, a[0], Opq("used"))
    st.ghost["tok_ty"] = cx.dty
    return ex.decode(st, TOK(ex, cx.dty)(v.d["s"]), cx.dty)


@model(r"server::analysis::parser::Parser::new")
def m_parsernew(ex, st, a, cx): return Opq("parser", t=ex.encode(st, a[0], cx.atys[0]))


def PARSE(ex, ts, rt): return z3.Function("statements_of", ts, ex.T.sort(rt))


@model(r"server::analysis::parser::Parser::parse")
def m_parse(ex, st, a, cx):
    ex.contract_calls.add(cx.name)
    v = ex.read(st, a[0])
    if not (isinstance(v, Opq) and v.kind == "parser"): raise Unsupported("a parser that was used before")
    ex.write(st, a[0], Opq("used"))
    t = v.d["t"]
    return ex.decode(st, PARSE(ex, t.sort(), cx.dty)(t), cx.dty)


@model(r"server::analysis::interpreter::Interpreter::<.*>::interpret")
def m_interpret(ex, st, a, cx):
    ex.contract_calls.add(cx.name)
    ref = a[0]
    while isinstance(ex.read(st, ref), Ref): ref = ex.read(st, ref)
    ity = ex.T.t[cx.atys[0]]["to"]
    req = ex.encode(st, a[1], cx.atys[1])
    after = ex.sym(st, ity, "interp")
    before = ex.read(st, ref)
    ex.write(st, ref, after)
    r = fresh(ex.T.sort(cx.dty), "response")
    st.events.append(("interpret", ref, req, r, after, before))
    return ex.decode(st, r, cx.dty)


@model(r"<server::storage::.* as server::storage::Storage>::.*", r"server::analysis::interpreter::Interpreter::<.*>::(?!new$|interpret$|\{).*")
def m_touch(ex, st, a, cx):
    if not st.ghost.get("server"): return NotImplemented
    st.events.append(("touch", cx.name))
    return NotImplemented


@model(r"<.* as server::io::stream::StreamHandler>::receive_request")
def m_receive(ex, st, a, cx):
    if ex.top_name == cx.name: return NotImplemented
    ex.contract_calls.add(cx.name)
    vt = payload(ex, cx.dty)
    def yes(s):
        v = ex.sym(s, vt, "request")
        s.events.append(("recv", ex.encode(s, v, vt)))
        return some(ex, cx.dty, v)
    def no(s):
        s.events.append(("recv", None))
        return none(ex, cx.dty)
    return [(None, yes), (None, no)]


@model(r"<(dyn )?.*StreamSender.* as server::io::stream::StreamSender>::send")
def m_reply(ex, st, a, cx):
    if ex.top_name == cx.name: return NotImplemented
    ex.contract_calls.add(cx.name)
    s0 = deep(ex, st, a[0])
    r = ex.encode(st, a[1], cx.atys[1])
    et = payload(ex, cx.dty, "Err")
    def yes(s):
        s.events.append(("reply", s0, r, True))
        return ok(ex, cx.dty, Adt(payload(ex, cx.dty, "Ok"), 0, []))
    def no(s):
        s.events.append(("reply", s0, r, False))
        return err(ex, cx.dty, ex.sym(s, et, "senderr"))
    return [(None, yes), (None, no)]


def abstract(rx, name=None, diverges=False):
    """a function replaced by the event of calling it; its result is arbitrary"""
    def f(ex, st, a, cx):
        if ex.top_name == cx.name: return NotImplemented
        ex.contract_calls.add(cx.name)
        r = None if diverges else ex.sym(st, cx.dty, "ret")
        args = []
        for v, t in zip(a, cx.atys):
            try: args.append(enc(ex, st, v, t))
            except Unsupported: args.append(v)
        st.events.append(("call", name or cx.name.rsplit("::", 1)[1], tuple(args), tuple(a), r, cx.name))
        return r
    return (re.compile(rx), f)
