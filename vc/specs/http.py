"""Contracts of the HTTP layer: C17 (requests) and C18 (responses).

Reading is judged round by round against specification functions of all the bytes received so far (the
ghost sequence of vc/wire.py): when it may go on reading, when it must answer with a query and which,
when with an error.  Writing is judged by the bytes handed to the stream."""
from engine import *
import conc, wire, loops, aio
from wire import *
from models import deep
from loops import Cand
from specs.servers import V, tid, tidrx, start_server, Server, ev

HANDLER = "<server::io::tcp::TcpStreamHandler as server::io::stream::StreamHandler>::receive_request"
SENDER = "<server::io::tcp::TcpStreamSender as server::io::stream::StreamSender>::send"
MODELS17 = wire.HTTP
MIN_HEADERS = 32


class Req:
    """what the bytes arr[0..ln) say"""
    def __init__(self, ex):
        self.ex, T = ex, ex.T
        self.T = T
        self.hdr = tidrx(T, r"httparse::Header<.*>")
        self.HS = T.sort(self.hdr)
        self.ni, self.vi = T.fidx(self.hdr, "name"), T.fidx(self.hdr, "value")
        self.bty = u8(ex)
        bv = T.vec_sort(self.bty)
        self.PH = PHEADERS(ex, self.hdr)
        A = self.PH.range()
        # the length header: index of the first one from position i (or the count if there is none)
        self.FIRST = z3.Function("first_length_header", A, IntS, IntS, IntS)
        # the headers as a map, after the first i of them
        self.hmt = tid(T, "std::collections::HashMap<std::string::String, std::string::String>")
        st = tid(T, "std::string::String")
        self.o = T.opt(st)
        M = z3.ArraySort(StrS, self.o[0])
        self.HMAP = z3.Function("header_map", A, IntS, M)
        self.HLEN = z3.Function("header_map_len", A, IntS, IntS)
        self.M = M

    def name(self, hs, i): return self.HS.accessor(0, self.ni)(z3.Select(hs, i))
    def value(self, hs, i):
        """(length, bytes)"""
        t = self.HS.accessor(0, self.vi)(z3.Select(hs, i))
        ln, ar, mk = self.T.vec_fns(self.bty)
        return ln(t), ar(t)
    def is_length(self, hs, i): return LOWER(self.ex, self.name(hs, i)) == self.ex.lit("content-length")
    def unfold_first(self, hs, n, i):
        return z3.And(self.FIRST(hs, n, i) == z3.If(i >= n, n, z3.If(self.is_length(hs, i), i, self.FIRST(hs, n, i + 1))),
                      z3.Implies(i <= n, z3.And(self.FIRST(hs, n, i) >= i, self.FIRST(hs, n, i) <= n)))
    def map0(self, hs):
        return z3.And(self.HMAP(hs, 0) == z3.K(StrS, self.o[1]), self.HLEN(hs, 0) == 0)
    def unfold_map(self, hs, i):
        vl, va = self.value(hs, i)
        good = UTFOK(vl, va)
        k, v = self.name(hs, i), UTF(vl, va)
        m, n = self.HMAP(hs, i), self.HLEN(hs, i)
        return z3.And(self.HMAP(hs, i + 1) == z3.If(good, z3.Store(m, k, self.o[2](v)), m),
                      self.HLEN(hs, i + 1) == z3.If(z3.And(good, z3.Not(self.o[3](z3.Select(m, k)))), n + 1, n))

    def at(self, st, ln, arr):
        """the request in the bytes: dict of terms"""
        hs, n = self.PH(ln, arr), PCOUNT(ln, arr)
        st.add(z3.And(*[self.unfold_first(hs, n, iv(k)) for k in range(5)] + [self.unfold_map(hs, iv(k)) for k in range(4)] + [self.map0(hs)]))
        f = self.FIRST(hs, n, iv(0))
        vl, va = self.value(hs, f)
        text = UTF(vl, va)
        parses = z3.Function("parses<usize>", StrS, BoolS)(text)
        size = z3.Function("parsed<usize>", StrS, IntS)(text)
        start = PSTART(ln, arr)
        st.add(z3.And(z3.Implies(PCOMPLETE(ln, arr), z3.And(start >= 0, start <= ln, n >= 0)), size >= 0, size <= U64MAX, z3.Not(z3.And(PCOMPLETE(ln, arr), PPARTIAL(ln, arr)))))
        valid = z3.And(f < n, UTFOK(vl, va), parses)
        body = VecV(self.bty, arr, ln)
        i = z3.Int("slice_i")
        barr = z3.Lambda([i], z3.Select(arr, i + start))
        btext = LOSSY(size, barr)
        ex, T = self.ex, self.T
        jt = JTYPES(ex)
        js = T.sort(jt)
        v = JVAL(ex, btext)
        oi, si = T.vidx(jt, "Object"), T.vidx(jt, "String")
        m = js.accessor(oi, 0)(v)
        k = ex.lit("query")
        q = MGET(ex, m, k)
        isq = z3.And(JOK(btext), js.recognizer(oi)(v), MHAS(m, k), js.recognizer(si)(q))
        return {"complete": PCOMPLETE(ln, arr), "partial": PPARTIAL(ln, arr), "valid": valid, "size": size, "start": start,
                "present": size <= ln - start, "post": PMETHOD(ln, arr) == ex.lit("POST"), "isq": isq, "query": js.accessor(si, 0)(q),
                "map": self.HMAP(hs, n), "maplen": self.HLEN(hs, n), "hs": hs, "n": n}


def http_loops(R):
    def spec(ex, L):
        out = []
        g = L.st.ghost
        bs = [l for l in L.vecs if ex.T.name(l.tid) == "u8"]
        if any(l.key[0] == "g" for l in L.leaves):
            for l in bs:
                out.append(Cand("%s holds the bytes received" % l.name, lambda S, l=l: z3.And(S[l].len == S.st.ghost["g:in.len"], S[l].arr == S.st.ghost["g:in.arr"])))
        p = ev(L.st.events, "parse")
        if not p: return out
        ln, arr = p[-1][1], p[-1][2]
        hs, n = R.PH(ln, arr), PCOUNT(ln, arr)
        pos = [l for l in L.ints]
        for l in pos:
            L.facts.append(lambda S, l=l: z3.And(R.unfold_first(hs, n, S[l]), R.unfold_first(hs, n, iv(0)), R.unfold_map(hs, S[l]), R.map0(hs)))
            out.append(Cand("no length header before %s" % l.name, lambda S, l=l: R.FIRST(hs, n, iv(0)) == R.FIRST(hs, n, S[l])))
            out.append(Cand("%s<=header count" % l.name, lambda S, l=l: S[l] <= n))
            for m in [x for x in L.leaves if x.kind == "map" and x.tid == (R.T.arg(R.hmt, 0), R.T.arg(R.hmt, 1))]:
                out.append(Cand("%s is the first %s headers" % (m.name, l.name), lambda S, l=l, m=m: z3.And(S[m].arr == R.HMAP(hs, S[l]), S[m].len == R.HLEN(hs, S[l]))))
        return out
    return spec


def read_judge(R, srt, rstream, opt=True):
    """judge(e, st, events, how, value): value None or the StreamRequest"""
    T = R.T
    tags = ["C17"]
    def judge(e, st, events, how, value):
        no = z3.BoolVal(False)
        g = st.ghost
        ln, arr, closed = g["g:in.len"], g["g:in.arr"], g["g:closed"]
        q = R.at(st, ln, arr)
        reads, parses = ev(events, "read"), ev(events, "parse")
        for p in parses: prove(e, st, tags, "at least %d headers are accepted" % MIN_HEADERS, p[3] >= MIN_HEADERS)
        for r in reads: prove(e, st, tags, "only the accepted connection is read", r[1] == rstream(st))
        if how == "next":
            if not reads: return
            prove(e, st, tags, "reading stops when the peer has closed", z3.Not(closed))
            prove(e, st, tags, "reading goes on only while the request is incomplete",
                  z3.Or(q["partial"], z3.And(q["complete"], q["valid"], z3.Not(q["present"]))))
            return
        if value is None: return
        T = R.T
        res, hdr = value
        good = res.is_("Ok")
        whole = z3.And(q["complete"], q["valid"], q["present"])
        prove(e, st, tags, "a query is handed on only from a complete, valid POST request", z3.Implies(good, z3.And(whole, q["post"], q["isq"])))
        prove(e, st, tags, "the query is the one in exactly the Content-Length bytes after the headers", z3.Implies(good, res.get("Ok").t == q["query"]))
        if hdr is not None:
            prove(e, st, tags, "the headers are those of the request", z3.Implies(good, z3.And(hdr.arr == q["map"], hdr.len == q["maplen"])))
        prove(e, st, tags, "an error is answered only to a bad or broken request",
              z3.Implies(z3.Not(good), z3.Or(closed, z3.And(z3.Not(q["complete"]), z3.Not(q["partial"])),
                         z3.And(q["complete"], z3.Or(z3.Not(q["valid"]), z3.Not(q["post"]), z3.And(q["present"], z3.Not(q["isq"])))))))
    return judge


def receive_contract(prog, ex, inst, srt, setup, request_of, sender_of):
    T = ex.T
    ex.keep_format = True
    R = Req(ex)
    ex.loop_spec = http_loops(R)
    def conn(st):
        a = ev(st.events, "accept")
        return a[-1][1] if a else None
    jr = read_judge(R, srt, conn)
    def judge(e, st, events, how, value):
        no = z3.BoolVal(False)
        acc = ev(st.events, "accept")
        if how == "next": return jr(e, st, events, how, None)
        if len(acc) != 1:
            prove(e, st, ["C17"], "one connection is accepted per request", no); return
        v = request_of(st, value)
        if v is None:
            prove(e, st, ["C17"], "a connection yields a request or an error", z3.BoolVal(acc[0][1] is None)); return
        rt = T.fields(srt)[T.fidx(srt, "request")]
        res = V(T, rt, ex.encode(st, v.f[T.fidx(srt, "request")], rt))
        hdr = v.f[T.fidx(srt, "headers")]
        x = sender_of(v.f[T.fidx(srt, "sender")])
        if acc[0][1] is None:
            prove(e, st, ["C17"], "a failed connection is an error", res.is_("Err")); return
        while isinstance(x, Adt) and len(x.f) == 1: x = x.f[0]
        prove(e, st, ["C17"], "the request carries the connection to answer on", x == acc[0][1] if is_t(x) and x.sort() == acc[0][1].sort() else no)
        jr(e, st, events, how, (res, hdr))
    Server(prog, ex, inst, setup, judge, rounds=2)


@contract("http_receive", ["C17"], exact(HANDLER), models=MODELS17)
def c_receive(prog, ex, inst):
    T = ex.T
    srt = tid(T, "server::io::stream::StreamRequest")
    def setup(st):
        a = [ex.sym(st, inst["locals"][1], "self")]
        start_input(ex, st)
        return a
    def request_of(st, value):
        d = value if isinstance(value, Adt) else ex.downcast(st, value, inst["locals"][0], T.vidx(inst["locals"][0], "Some"))
        return None if T.variants(d.ty)[d.var]["name"] == "None" else d.f[0]
    receive_contract(prog, ex, inst, srt, setup, request_of, lambda snd: snd.f[0] if isinstance(snd, Adt) and snd.f else None)


@contract("http_receive_async", ["C17"], exact("server::io::tcp_async::TcpStreamHandler::receive_request::{closure#0}"), models=aio.AIO + MODELS17)
def c_receive_async(prog, ex, inst):
    T = ex.T
    srt = tid(T, "server::io::tcp_async::StreamRequest")
    def setup(st):
        a = aio.coroutine(ex, st, inst, [ex.sym(st, t, "arg") for t in aio.upvar_types(ex, inst)])
        start_input(ex, st)
        return a
    def sender_of(snd):
        if isinstance(snd, Adt) and T.variants(snd.ty)[snd.var]["name"] == "Some": return snd.f[0]
        return None
    receive_contract(prog, ex, inst, srt, setup, lambda st, value: value.f[0], sender_of)


# ------------------------------------------------------------------ responses
CODES = {"KeyError": "422", "NetworkError": "500", "WriteError": "500", "TokenizationError": "422", "ParseError": "422", "IndexError": "422",
         "TypeError": "422", "InternalError": "500", "AuthorizationError": "401", "AuthenticationError": "403", "RequestError": "400"}


def parts(ex, t):
    """text -> list of Python strings and terms, literals merged"""
    out = []
    for x in flatten(t):
        l = literal(ex, x)
        if l is None: out.append(x)
        elif out and isinstance(out[-1], str): out[-1] += l
        else: out.append(l)
    return out


def literal(ex, t):
    for s, x in ex.lits.items():
        if x.eq(t): return s
    return None


def send_judge(ex, W, resp, stream_is):
    """resp: V Result<InterpreterResponse, ServerError>"""
    T = ex.T
    tags = ["C18"]
    def done(e, st, ret):
        no, yes = z3.BoolVal(False), z3.BoolVal(True)
        evs = [x for x in st.events if x[0] in ("write", "flush", "part")]
        for x in evs: prove(e, st, tags, "only the connection of the request is written", stream_is(x[1]))
        if [x for x in evs if x[0] == "part"]:
            prove(e, st, tags, "the response is written as a whole", no); return
        failed = [i for i, x in enumerate(evs) if not x[3 if x[0] == "write" else 2]]
        good = ret.is_("Ok")
        if failed:
            prove(e, st, tags, "a failure to write or flush is reported as a network error", z3.And(z3.Not(good), ret.get("Err").is_("NetworkError")))
            return
        prove(e, st, tags, "sending succeeds when everything was written", good)
        w = [i for i, x in enumerate(evs) if x[0] == "write"]
        if not w: prove(e, st, tags, "a response is written", no); return
        prove(e, st, tags, "the response is flushed", z3.BoolVal(any(x[0] == "flush" for x in evs[w[-1]:])))
        ps = []
        B = BYTES(ex, u8(ex))
        for i in w:
            b = evs[i][2]
            if not b.decl().eq(B):
                prove(e, st, tags, "the response is the text of the outcome", no); return
            ps += flatten(b.arg(0))
        whole(e, st, concat(ps))
    def whole(e, st, text):
        no = z3.BoolVal(False)
        ps = parts(ex, text)
        import re as r
        # status line, headers, Content-Length: <n>, more headers, blank line, payload, optional newline
        s = ""
        terms = []
        for x in ps:
            if isinstance(x, str): s += x.replace("\0", "")
            else:
                s += "\0"; terms.append(x)
        m = r.fullmatch(r"HTTP/1\.1 (\d\d\d) [A-Za-z ]+\r?\n((?:[A-Za-z-]+: ?[^\n\0]*\n)*?)Content-Length: ?\0\r?\n((?:[A-Za-z-]+: ?[^\n\0]*\n)*?)\r?\n(.*)", s, r.S | r.I)
        if not m:
            prove(e, st, tags, "the response is a status line, headers with the length, a blank line and the payload", no); return
        code, rest = m.group(1), m.group(4)
        body = ps
        # the payload: everything after the blank line but one closing newline
        size = terms[0]
        pay = []
        k = len(s) - len(rest)
        pos, ti = 0, 0
        for x in ps:
            if isinstance(x, str):
                a = x[max(0, k - pos):] if pos + len(x) > k else ""
                if a: pay.append(a)
                pos += len(x)
            else:
                if pos >= k: pay.append(x)
                pos += 1
        if pay and isinstance(pay[-1], str) and not (len(pay) == 1):
            for nl in ("\r\n", "\n"):
                if pay[-1].endswith(nl):
                    pay[-1] = pay[-1][:-len(nl)]
                    break
        pay = [x for x in pay if not (isinstance(x, str) and x == "")]
        if not pay: prove(e, st, tags, "the response carries a payload", no); return
        p = concat([ex.lit(x) if isinstance(x, str) else x for x in pay])
        n = z3.Function("bytelen", StrS, IntS)(p)
        ust = [i for i, t in enumerate(T.t) if t["name"] == "usize"][0]
        want = z3.Function("display<usize>", IntS, StrS)(n)
        prove(e, st, tags, "Content-Length is the length of the payload in bytes", size == want)
        ok = [resp.is_("Ok")] if code == "200" else []
        bad = [z3.And(resp.is_("Err"), resp.get("Err").is_(v)) for v, c in CODES.items() if c == code]
        prove(e, st, tags, "the status is 200 for a success and the code of its kind for an error", z3.Or(ok + bad + [no]))
        E = T.sort(W["err"])
        rr = resp.get("Ok").t
        js = JTEXT(ex)(TOVALUE(ex, rr.sort())(rr))
        es = z3.Function("display<server::error::ServerError>", E, StrS)(resp.get("Err").t)
        prove(e, st, tags, "the payload is the outcome", z3.And(z3.Implies(resp.is_("Ok"), p == js), z3.Implies(resp.is_("Err"), p == es)))
    return done


def world(T):
    return {"err": tid(T, "server::error::ServerError"), "resp": tid(T, "std::result::Result<server::analysis::interpreter::InterpreterResponse, server::error::ServerError>")}


@contract("http_send", ["C18"], exact(SENDER), models=MODELS17)
def c_send(prog, ex, inst):
    T = ex.T
    ex.keep_format = True
    W = world(T)
    st = State()
    a = [ex.sym(st, inst["locals"][1], "self"), ex.sym(st, W["resp"], "response")]
    resp = V(T, W["resp"], ex.encode(st, a[1], W["resp"]))
    sty = T.t[inst["locals"][1]]["to"]
    stream = ex.read(st, Ref(a[0].cell, a[0].path + (("f", T.fidx(sty, "stream"), sty),)))
    jd = send_judge(ex, W, resp, lambda x: x == stream)
    rt = inst["locals"][0]
    start(ex, inst, st, a, lambda e, s, v: jd(e, s, V(T, rt, ex.encode(s, v, rt))))


@contract("http_send_async", ["C18"], exact("server::io::tcp_async::TcpStreamSender::send::{closure#0}"), models=aio.AIO + MODELS17)
def c_send_async(prog, ex, inst):
    T = ex.T
    ex.keep_format = True
    W = world(T)
    st = State()
    sref, resp_t = aio.upvar_types(ex, inst)
    a = [ex.sym(st, sref, "self"), ex.sym(st, W["resp"], "response")]
    resp = V(T, W["resp"], ex.encode(st, a[1], W["resp"]))
    sty = T.t[sref]["to"]
    stream = ex.read(st, Ref(a[0].cell, a[0].path + (("f", T.fidx(sty, "stream"), sty),)))
    jd = send_judge(ex, W, resp, lambda x: x == stream)
    rt = T.arg(inst["locals"][0], 0)
    start(ex, inst, st, aio.coroutine(ex, st, inst, a), lambda e, s, v: jd(e, s, V(T, rt, ex.encode(s, v.f[0], rt))))


@contract("error_display", ["C18"], exact("<server::error::ServerError as std::fmt::Display>::fmt"), models=MODELS17)
def c_display(prog, ex, inst):
    T = ex.T
    et = tid(T, "server::error::ServerError")
    st = State()
    a = [ex.sym(st, t, "a") for t in inst["locals"][1:3]]
    x = V(T, et, ex.encode(st, ex.read(st, a[0]), et))
    def done(e, s, v):
        w = [x for x in s.events if x[0] == "fmt"]
        rt = V(T, inst["locals"][0], ex.encode(s, v, inst["locals"][0]))
        if any(not k[2] for k in w):
            prove(e, s, ["C18"], "a failure to write is reported", rt.is_("Err")); return
        prove(e, s, ["C18"], "displaying succeeds", rt.is_("Ok"))
        ps = parts(ex, concat([y for k in w for y in flatten(k[1])])) if w else []
        goal = []
        for n in CODES:
            msg = x.get(n).t
            same = len(ps) == 2 and isinstance(ps[0], str) and ps[0] == n + ": " and is_t(ps[1])
            goal.append(z3.Implies(x.is_(n), ps[1] == msg if same else z3.BoolVal(False)))
        prove(e, s, ["C18"], "an error is shown as its kind and its message", z3.And(goal))
    start(ex, inst, st, a, done)
