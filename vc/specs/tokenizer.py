"""Contracts of the tokenizer (C10, C11).

The lexical rules are specification functions over the characters c[0..n): WS (blanks), RUN (end of a
number or word), DOT (a dot inside it), IDOK (only identifier characters), STR* (string literals with
escapes), T* (the token starting at a position), Q* (all tokens of the text; tail recursive).
`next` is proved to return exactly the token the rules give at the next non-blank character, and nothing
after an error; `tokenize` to return exactly the list of all tokens.
"""
from engine import *
from models import deep, WHITE, NUMERIC, ALPHA, CharArr, FROMCHARS, NCHARS, CHARS, SUB, STRPUSH, CHARHAS, has_facts, char_facts, between
from loops import Cand, Leaf, Abs, get_leaf, positions
from specs.interp import ERR, tid

TOKENIZER = "server::analysis::tokenizer::Tokenizer"
ATOK = "server::analysis::tokens::AnnotatedToken"
TOK = "server::analysis::tokens::Token"
NEXT = "<%s as std::iter::Iterator>::next" % TOKENIZER
KEYWORDS = {"get": "Get", "set": "Set", "del": "Delete", "ex": "Exists", "upd": "Update", "lt": "Lifetime", "try_get": "GetOrNone", "try_set": "SetIfNotExists",
            "none": "None", "true": ("Bool", True), "false": ("Bool", False), "type": "ValueType",
            "vset": "VectorSet", "vget": "VectorGet", "vpop": "VectorPop", "vpush": "VectorAppend", "vlen": "VectorLength",
            "mex": "MapExists", "mget": "MapGet", "mset": "MapSet", "mdel": "MapDelete", "mlen": "MapLength",
            "int": "IntType", "float": "FloatType", "str": "StringType", "bool": "BoolType", "vec": "VectorType", "map": "MapType", "shutdown": "Shutdown"}
PUNCT = {";": "Semicolon", "[": "LeftBracket", "]": "RightBracket", ",": "Comma", ":": "Colon", "{": "LeftCurlyBracket", "}": "RightCurlyBracket"}


DOTCH = iv(ord("."))


class Lex:
    def __init__(self, ex, c, n):
        T = self.T = ex.T
        self.ex, self.c, self.n = ex, c, n
        self.at, self.tt = tid(T, ATOK), tid(T, TOK)
        self.AS, self.TS = T.sort(self.at), T.sort(self.tt)
        self.EMPTY = T.empty(next(i for i, t in enumerate(T.t) if t["name"] == "char"))
        F = z3.Function
        self.WS, self.RUN = F("skip_blanks", IntS, IntS), F("run_end", IntS, IntS)
        self.DOT, self.IDOK = F("run_has_dot", IntS, BoolS), F("run_is_word", IntS, BoolS)
        self.STR = [F("str_" + x, IntS, IntS, CharArr, s) for x, s in (("ok", BoolS), ("end", IntS), ("len", IntS), ("arr", CharArr))]
        self.Tok, self.Tval, self.Tend = F("token_ok", IntS, BoolS), F("token_at", IntS, self.TS), F("token_end", IntS, IntS)
        AA = z3.ArraySort(IntS, self.AS)
        self.Q = [F("query_" + x, IntS, IntS, AA, s) for x, s in (("ok", BoolS), ("len", IntS), ("arr", AA))]
        self.lower = F("to_lowercase", StrS, StrS)

    def ch(self, i): return z3.Select(self.c, i)
    def ends(self, x): return z3.Or([WHITE(x)] + [x == ord(k) for k in ";:,]}"])
    def inrun(self, i): return z3.And(i < self.n, z3.Not(self.ends(self.ch(i))))
    def idchar(self, x): return z3.Or(ALPHA(x), NUMERIC(x), x == ord("_"))
    def facts(self, i): return char_facts(self.ch(i))
    def unfold_ws(self, i):
        b = z3.And(i < self.n, WHITE(self.ch(i)))
        return z3.And(z3.Implies(b, self.WS(i) == self.WS(i + 1)), z3.Implies(z3.Not(b), self.WS(i) == i))
    def unfold_run(self, i):
        b, x = self.inrun(i), self.ch(i)
        return z3.And(z3.Implies(b, self.RUN(i) == self.RUN(i + 1)), z3.Implies(z3.Not(b), self.RUN(i) == i),
                      self.DOT(i) == z3.And(b, z3.Or(x == ord("."), self.DOT(i + 1))),
                      self.IDOK(i) == z3.Or(z3.Not(b), z3.And(self.idchar(x), self.IDOK(i + 1))))
    def unfold_str(self, i, ln, arr):
        x, y = self.ch(i), self.ch(i + 1)
        r = [f(i, ln, arr) for f in self.STR]
        esc = iv(ord("\n"))
        for a, b in (("t", "\t"), ("r", "\r"), ('"', '"'), ("\\", "\\")): esc = z3.If(y == ord(a), iv(ord(b)), esc)
        escok = z3.Or([y == ord(a) for a in 'ntr"\\'])
        quote, back = z3.And(i < self.n, x == ord('"')), z3.And(i < self.n, x == ord("\\"))
        go2 = z3.And(back, i + 1 < self.n, escok)
        plain = z3.And(i < self.n, x != ord('"'), x != ord("\\"))
        n2 = [f(i + 2, ln + 1, z3.Store(arr, ln, esc)) for f in self.STR]
        n1 = [f(i + 1, ln + 1, z3.Store(arr, ln, x)) for f in self.STR]
        same = lambda c, q: [z3.Implies(c, z3.And([u == v for u, v in zip(r, q)]))]
        return z3.And([z3.Implies(quote, z3.And(r[0], r[1] == i + 1, r[2] == ln, r[3] == arr)),
                       z3.Implies(z3.Not(z3.Or(quote, go2, plain)), z3.Not(r[0]))] + same(go2, n2) + same(plain, n1))
    def unfold_sub(self, lo, k):
        s = SUB(self.c, lo, k)
        return z3.And(z3.Implies(k == 0, s == self.EMPTY), z3.Implies(k >= 0, SUB(self.c, lo, k + 1) == z3.Store(s, k, self.ch(lo + k))),
                      z3.Implies(k >= 0, FROMCHARS(k + 1, SUB(self.c, lo, k + 1)) == STRPUSH(FROMCHARS(k, s), self.ch(lo + k))))
    def hassub(self, lo, hi): return CHARHAS(SUB(self.c, lo, hi - lo), hi - lo, DOTCH)
    def has_sub(self, lo, k):
        a, b = SUB(self.c, lo, k), SUB(self.c, lo, k + 1)
        return z3.And(z3.Implies(k >= 0, CHARHAS(b, k, DOTCH) == CHARHAS(a, k, DOTCH)), has_facts(b, k + 1, DOTCH), has_facts(a, k, DOTCH))
    def sub_all(self):
        """all the characters of a text, with nothing after them"""
        return SUB(self.c, iv(0), self.n) == self.c
    def text(self, lo, hi): return FROMCHARS(hi - lo, SUB(self.c, lo, hi - lo))
    def tok(self, name, *a): return self.TS.constructor(self.T.vidx(self.tt, name))(*a)
    def word(self, w):
        r = self.tok("Identifier", w)
        for k, t in KEYWORDS.items():
            r = z3.If(w == self.ex.lit(k), self.tok(t[0], z3.BoolVal(t[1])) if isinstance(t, tuple) else self.tok(t), r)
        return r
    def parses(self, ty, s): return z3.Function("parses<%s>" % ty, StrS, BoolS)(s)
    def parsed(self, ty, s, name):
        ft = self.T.fields(self.tt, self.T.vidx(self.tt, name))[0]
        return z3.Function("parsed<%s>" % ty, StrS, self.T.sort(ft))(s)
    def kinds(self, p):
        """[(condition on the first character, ok, token, end)]"""
        x = self.ch(p)
        out = [(x == ord(k), z3.BoolVal(True), self.tok(t), p + 1) for k, t in PUNCT.items()]
        e = self.RUN(p + 1)
        s = self.text(p, e)
        num = z3.Or(NUMERIC(x), x == ord("-"))
        out.append((z3.And(num, self.DOT(p + 1)), self.parses("f32", s), self.tok("Float", self.parsed("f32", s, "Float")), e))
        out.append((z3.And(num, z3.Not(self.DOT(p + 1))), self.parses("i64", s), self.tok("Integer", self.parsed("i64", s, "Integer")), e))
        r = [f(p + 1, iv(0), self.EMPTY) for f in self.STR]
        out.append((x == ord('"'), z3.And(r[0], z3.Or(r[1] >= self.n, self.ends(self.ch(r[1])))), self.tok("StringValue", FROMCHARS(r[2], r[3])), r[1]))
        out.append((z3.And(z3.Not(num), z3.Or(ALPHA(x), x == ord("_"))), self.IDOK(p + 1), self.word(self.lower(s)), e))
        return out
    CLASSES = ["punctuation", "number", "string", "word", "other"]
    def cls(self, p, k):
        x = self.ch(p)
        num = z3.Or(NUMERIC(x), x == ord("-"))
        pu = z3.Or([x == ord(q) for q in PUNCT])
        st, w = x == ord('"'), z3.And(z3.Not(num), z3.Or(ALPHA(x), x == ord("_")))
        return {"punctuation": pu, "number": num, "string": st, "word": w, "other": z3.Not(z3.Or(pu, num, st, w))}[k]
    def define(self, p):
        ks = self.kinds(p)
        ok = z3.Or([z3.And(g, o) for g, o, _, _ in ks])
        return z3.And([self.Tok(p) == ok] + [z3.Implies(z3.And(g, o), z3.And(self.Tval(p) == t, self.Tend(p) == e)) for g, o, t, e in ks] +
                      [self.facts(p), self.facts(p + 1), self.unfold_run(p + 1), self.unfold_str(p + 1, iv(0), self.EMPTY), self.unfold_sub(p, iv(0)), FROMCHARS(iv(0), self.EMPTY) == self.ex.lit("")])
    def atoken(self, p):
        fs = self.T.fields(self.at)
        nm = [f[0] for f in self.T.t[self.at]["variants"][0]["fields"]]
        v = {"token": self.Tval(p), "position": p, "lexeme": self.text(p, self.Tend(p))}
        if sorted(nm) != sorted(v): raise Lost("fields of an annotated token")
        return self.AS.constructor(0)(*[v[x] for x in nm])
    def unfold_query(self, i, ln, arr):
        p = self.WS(i)
        r = [f(i, ln, arr) for f in self.Q]
        n = [f(self.Tend(p), ln + 1, z3.Store(arr, ln, self.atoken(p))) for f in self.Q]
        return z3.And(r[0] == z3.Or(p >= self.n, z3.And(self.Tok(p), n[0])),
                      z3.Implies(p >= self.n, z3.And(r[1] == ln, r[2] == arr)),
                      z3.Implies(z3.And(p < self.n, self.Tok(p)), z3.And(r[1] == n[1], r[2] == n[2])))


def loops_spec(ex, L):
    X = ex.lex
    T = ex.T
    out = []
    e = L.entry
    for l in positions(L):
        a = e[l]
        if not isinstance(l, Abs) and l.key[0] != "g" and l.key[1] and l.key[1][-1] == ("iterpos",):
            # a search for a dot
            it = get_leaf(ex, L.st, Leaf((l.key[0], l.key[1][:-1]), "iter", None, ""))
            if isinstance(it.seq, Ref):
                q = ex.read(L.st, it.seq)
                arr = q.arr if isinstance(q, VecV) and T.name(q.ety) == "char" else None
            else: arr = it.seq.arr if T.name(it.ety) == "char" else None
            if arr is not None:
                L.facts.append(lambda S, l=l, arr=arr, n=it.end: z3.And(has_facts(arr, S[l], DOTCH), has_facts(arr, S[l] + 1, DOTCH),
                               z3.Implies(z3.And(S[l] >= 0, S[l] < n, z3.Select(arr, S[l]) == DOTCH), CHARHAS(arr, n, DOTCH))))
                out.append(Cand("sim no dot yet", lambda S, l=l, arr=arr: z3.Not(CHARHAS(arr, S[l], DOTCH))))
        for f in (X.facts, X.unfold_ws, X.unfold_run): L.facts.append(lambda S, l=l, f=f: f(S[l]))
        L.facts.append(lambda S, l=l: X.facts(S[l] + 1))
        out.append(Cand("sim blanks", lambda S, l=l, a=a: z3.And(S[l] >= a, X.WS(S[l]) == X.WS(a))))
        out.append(Cand("sim run", lambda S, l=l, a=a: z3.And(S[l] >= a, X.RUN(S[l]) == X.RUN(a))))
        out.append(Cand("sim word", lambda S, l=l, a=a: X.IDOK(S[l]) == X.IDOK(a)))
        for lo in (a, simp(a - 1)) if not any(T.name(v.tid) == "char" for v in L.vecs) and "get_numeric" in "".join(f.inst["name"] for f in L.st.frames[-2:]) else ():
            L.facts.append(lambda S, l=l, lo=lo: z3.And(X.unfold_sub(lo, S[l] - lo), X.unfold_sub(lo, S[l] - lo - 1), X.unfold_sub(lo, iv(0)), X.has_sub(lo, S[l] - lo), X.has_sub(lo, S[l] - lo - 1)))
            out.append(Cand("sim dot text", lambda S, l=l, lo=lo, a=a: z3.Or(X.hassub(lo, a), X.DOT(a)) == z3.Or(X.hassub(lo, S[l]), X.DOT(S[l]))))
        for b in L.bools:
            out.append(Cand("sim dot", lambda S, l=l, a=a, b=b: X.DOT(a) == z3.Or(S[b], X.DOT(S[l]))))
        for v in L.vecs:
            n0, a0 = e[v].len, e[v].arr
            if T.name(v.tid) == "char":
                lo = simp(a - n0)
                for d in (0, 1): L.facts.append(lambda S, v=v, lo=lo, d=d: X.unfold_sub(lo, S[v].len - d))
                out.append(Cand("sim text", lambda S, v=v, lo=lo: S[v].arr == SUB(X.c, lo, S[v].len)))
                L.facts.append(lambda S, v=v, z=(a0, n0): z3.And(has_facts(S[v].arr, S[v].len, DOTCH), has_facts(*z, DOTCH)))
                out.append(Cand("sim dot in", lambda S, l=l, a=a, v=v, z=(a0, n0): z3.Or(CHARHAS(*z, DOTCH), X.DOT(a)) == z3.Or(CHARHAS(S[v].arr, S[v].len, DOTCH), X.DOT(S[l]))))
                L.facts.append(lambda S, l=l, v=v: X.unfold_str(S[l], S[v].len, S[v].arr))
                z = (a, n0, a0)
                out.append(Cand("sim string", lambda S, l=l, v=v, z=z: z3.And([f(S[l], S[v].len, S[v].arr) == f(*z) for f in X.STR])))
            if T.name(v.tid) == ATOK:
                z = (a, n0, a0)
                L.facts.append(lambda S, l=l, v=v: X.unfold_query(S[l], S[v].len, S[v].arr))
                if ex.inlined_next: L.facts.append(lambda S, l=l: X.define(X.WS(S[l])))
                out.append(Cand("sim query", lambda S, l=l, v=v, z=z: z3.And([f(S[l], S[v].len, S[v].arr) == f(*z) for f in X.Q])))
        for s in [x for x in L.vals if is_t(e[x]) and e[x].sort() == StrS]:
            for lo in (a, simp(a - 1)):
                L.facts.append(lambda S, l=l, lo=lo: z3.And(X.unfold_sub(lo, S[l] - lo), X.unfold_sub(lo, iv(0)), X.unfold_sub(lo, iv(1)), FROMCHARS(iv(0), X.EMPTY) == ex.lit("")))
                out.append(Cand("sim text2", lambda S, l=l, s=s, lo=lo: S[s] == X.text(lo, S[l])))
    return out


class TState:
    def __init__(self, T):
        self.t = tid(T, TOKENIZER)
        fs = T.t[self.t]["variants"][0]["fields"]
        us = [i for i, f in enumerate(fs) if T.name(f[1]) == "usize"]
        good = [i for i in us if re.search("current|next|cursor|pos|index|offset", fs[i][0]) and not re.search("start|begin", fs[i][0])]
        v = [i for i, f in enumerate(fs) if T.name(f[1]) == "std::vec::Vec<char>"]
        if len(v) != 1 or not us: raise Lost("fields of the tokenizer")
        self.v, self.p, self.us = v[0], (good or us)[0], us


def posref(me, ts): return Ref(me.cell, me.path + (("f", ts.p, ts.t),))


def new_tokenizer(prog, ex):
    """(state, tokenizer value) of a fresh tokenizer on any text; sets ex.lex"""
    st = State()
    T = ex.T
    new = exact(TOKENIZER + "::new")(prog)
    s = fresh(StrS, "text")
    n = NCHARS(s)
    st.add(z3.And(n >= 0, n <= I64MAX))
    ex.lex = Lex(ex, CHARS(s), n)
    ex.need_termination = True
    ex.loop_mode = lambda ex, st, fr, header: "inv"
    ex.loop_spec = loops_spec
    ex.panic_tag = "no panic"
    ex.inlined_next = True
    got = []
    start(ex, new, st, [s if False else text_arg(ex, st, s)], lambda ex, s2, ret: got.append((s2, ret)))
    if len(got) != 1: raise Lost("Tokenizer::new")
    st, v = got[0]
    st.frames = []
    if not isinstance(v, Adt): v = ex.decode(st, v, tid(T, TOKENIZER))
    # the characters kept are those of the text
    i = TState(T).v
    w = v.f[i]
    X = ex.lex
    if isinstance(w, VecV) and not (w.arr.eq(X.c) and w.len.eq(X.n)):
        st.add(z3.Implies(w.len == X.n, X.sub_all()))
        if prove(ex, st, ["C11"], "the tokenizer holds the characters of the text", z3.And(w.arr == X.c, w.len == X.n)):
            v = Adt(v.ty, v.var, [VecV(w.ety, X.c, X.n) if k == i else x for k, x in enumerate(v.f)])
            # the proof is about the text alone: what follows holds for any text
            st.havoced = False
    return st, v


def text_arg(ex, st, s): return ex.ref_to(st, s)


def same_command(ex, st, me, ts):
    v = ex.read(st, Ref(me.cell, me.path + (("f", ts.v, ts.t),)))
    X = ex.lex
    return isinstance(v, VecV) and v.arr.eq(X.c) and v.len.eq(X.n)


def outcome(ex, s, ret, rt):
    """(is none, is error, error, token) of an Option<Result<AnnotatedToken, ServerError>>"""
    T = ex.T
    r = ex.encode(s, ret, rt)
    O = T.sort(rt)
    res_t = T.fields(rt, T.vidx(rt, "Some"))[0]
    R = T.sort(res_t)
    some = O.recognizer(T.vidx(rt, "Some"))(r)
    x = O.accessor(T.vidx(rt, "Some"), 0)(r)
    okc, erc = T.vidx(res_t, "Ok"), T.vidx(res_t, "Err")
    return z3.Not(some), z3.And(some, R.recognizer(erc)(x)), R.accessor(erc, 0)(x), z3.And(some, R.recognizer(okc)(x)), R.accessor(okc, 0)(x)


def next_contract(cls):
    def run(prog, ex, inst):
        T = ex.T
        st, v = new_tokenizer(prog, ex)
        ts = TState(T)
        X = ex.lex
        f = list(v.f)
        for i in ts.us: f[i] = ex.sym(st, T.fields(ts.t)[i], "field")
        v0 = Adt(v.ty, v.var, f)
        i = f[ts.p]
        st.add(z3.And(i >= 0, i <= X.n))
        me = ex.ref_to(st, v0)
        p = X.WS(i)
        st.add(X.facts(i)); st.add(X.unfold_ws(i)); st.add(X.define(p))
        if cls is None: st.add(p >= X.n)
        else: st.add(z3.And(p < X.n, X.cls(p, cls)))
        satisfiable(ex, st, "next")
        rt = inst["locals"][0]
        ET = T.sort(tid(T, ERR))
        bools = [k for k, t in enumerate(T.fields(ts.t)) if T.name(t) == "bool"]
        again = []
        def done(ex, s, ret):
            none, iserr, err, isok, tok = outcome(ex, s, ret, rt)
            q = ex.read(s, posref(me, ts))
            s.add(X.unfold_ws(q))
            now = ex.read(s, me)
            if not same_command(ex, s, me, ts): prove(ex, s, ["C11"], "the text stays the same", z3.BoolVal(False))
            prove(ex, s, ["C10", "C11"], "the position stays inside the text and moves forward", z3.And(q >= i, q <= X.n, p >= i, p <= X.n, z3.Implies(isok, z3.And(p < X.n, q > p))))
            prove(ex, s, ["C11"], "the tokens end exactly where only blanks are left", none == (p >= X.n))
            prove(ex, s, ["C11"], "a token is accepted exactly when it fits the lexical rules", z3.Implies(p < X.n, isok == X.Tok(p)))
            prove(ex, s, ["C11"], "the token is the one written, with its text and position", z3.Implies(isok, z3.And(tok == X.atoken(p), q == X.Tend(p))))
            prove(ex, s, ["C10"], "a rejection is a tokenisation error", z3.Implies(iserr, ET.recognizer(T.vidx(tid(T, ERR), "TokenizationError"))(err)))
            for b in bools: prove(ex, s, ["C10", "C11"], "the tokenizer stays in its running state", z3.Implies(isok, now.f[b] == v.f[b]))
            e = simp(iserr)
            if not z3.is_false(e): again.append((s, iserr))
        start(ex, inst, st, [me], done)
        # after an error: nothing, for ever
        for s, iserr in again:
            s = s.copy()
            s.add(iserr)
            if not ex.feasible(s, z3.BoolVal(True)): continue
            s.frames = []
            def second(ex, s2, ret):
                none, _, _, _, _ = outcome(ex, s2, ret, rt)
                prove(ex, s2, ["C10"], "nothing follows an error", none)
                a = ex.read(s2, me)
                s3 = s2.copy()
                s3.frames = []
                def third(ex, s4, ret):
                    prove(ex, s4, ["C10"], "nothing ever follows an error", outcome(ex, s4, ret, rt)[0])
                    b = ex.read(s4, me)
                    prove(ex, s4, ["C10"], "a finished tokenizer stays as it is", z3.And([x == y for k, (x, y) in enumerate(zip(a.f, b.f)) if is_t(x)] or [z3.BoolVal(True)]))
                sub_start(ex, inst, s3, [me], third)
            sub_start(ex, inst, s, [me], second)
        for o in ex.obls:
            if getattr(o, "tags", None) is None: o.tags = ["C10"]
    CONTRACTS.append(Contract("next token: " + (cls or "end of the text"), ["C10", "C11"], exact(NEXT), run))


def sub_start(ex, inst, st, args, on_done):
    ex.lex_extra = True
    start(ex, inst, st, args, on_done)


for k in [None] + Lex.CLASSES: next_contract(k)


def m_next(ex, st, a, cx):
    """next, through its contract"""
    T = ex.T
    X, ts = ex.lex, ex.tstate
    me = a[0]
    while isinstance(ex.read(st, me), Ref): me = ex.read(st, me)
    if not same_command(ex, st, me, ts): raise Unsupported("the text changes")
    ex.contract_calls.add(NEXT)
    v = ex.read(st, me)
    i = v.f[ts.p]
    p = X.WS(i)
    prove(ex, st, ["C10", "C11"], "precondition of next", z3.And(i >= 0, i <= X.n), cx.line)
    for b in ex.tbools:
        if not ex.tfresh[b].eq(v.f[b]): prove(ex, st, ["C10", "C11"], "precondition of next: no error so far", v.f[b] == ex.tfresh[b], cx.line)
    rt = payload(ex, cx.dty)
    erc, okc = T.vidx(rt, "Err"), T.vidx(rt, "Ok")
    def upd(s, pos, running):
        f = list(v.f)
        for k, t in enumerate(T.fields(ts.t)):
            if k == ts.v: continue
            f[k] = pos if k == ts.p else (v.f[k] if running and k in ex.tbools else ex.sym(s, t, "field"))
        ex.write(s, me, Adt(v.ty, v.var, f))
    def none(s):
        q = fresh(IntS, "pos"); s.add(z3.And(q >= i, q <= X.n))
        upd(s, q, False)
        return Adt(cx.dty, T.vidx(cx.dty, "None"), [])
    def some(s):
        q = X.Tend(p)
        s.add(z3.And(q > p, q <= X.n))
        upd(s, q, True)
        return Adt(cx.dty, T.vidx(cx.dty, "Some"), [Adt(rt, okc, [ex.decode(s, X.atoken(p), X.at)])])
    def fail(s):
        q = fresh(IntS, "pos"); s.add(z3.And(q >= i, q <= X.n))
        upd(s, q, False)
        et = tid(T, ERR)
        E = T.sort(et)
        e = E.constructor(T.vidx(et, "TokenizationError"))(fresh(StrS, "msg"))
        return Adt(cx.dty, T.vidx(cx.dty, "Some"), [Adt(rt, erc, [e])])
    st.add(z3.And(p >= i, p <= X.n))
    return [(p >= X.n, none), (z3.And(p < X.n, X.Tok(p)), some), (z3.And(p < X.n, z3.Not(X.Tok(p))), fail)]


def payload(ex, dty, variant="Some"): return ex.T.fields(dty, ex.T.vidx(dty, variant))[0]


@contract("tokenize a text", ["C10", "C11"], exact(TOKENIZER + "::tokenize"))
def tokenize(prog, ex, inst):
    T = ex.T
    st, v = new_tokenizer(prog, ex)
    X = ex.lex
    ts = ex.tstate = TState(T)
    ex.tbools = [k for k, t in enumerate(T.fields(ts.t)) if T.name(t) == "bool"]
    ex.tfresh = v.f
    ex.inlined_next = False
    ex.models.insert(0, (re.compile(re.escape(NEXT)), m_next))
    E = T.empty(X.at)
    z = (iv(0), iv(0), E)
    st.add(X.unfold_query(*z))
    me = ex.ref_to(st, v)
    prove(ex, st, ["C10", "C11"], "a new tokenizer stands at the start of the text", v.f[ts.p] == 0)
    satisfiable(ex, st, "tokenize")
    rt = inst["locals"][0]
    RT = T.sort(rt)
    okc, erc = T.vidx(rt, "Ok"), T.vidx(rt, "Err")
    okt = T.fields(rt, okc)[0]
    ET = T.sort(tid(T, ERR))
    def done(ex, s, ret):
        r = ex.encode(s, ret, rt)
        isok = RT.recognizer(okc)(r)
        prove(ex, s, ["C11"], "a text is accepted exactly when every token fits the lexical rules", isok == X.Q[0](*z))
        prove(ex, s, ["C10"], "a rejection is a tokenisation error", z3.Implies(z3.Not(isok), ET.recognizer(T.vidx(tid(T, ERR), "TokenizationError"))(RT.accessor(erc, 0)(r))))
        b = ret.f[0] if isinstance(ret, Adt) and ret.var == okc and isinstance(ret.f[0], VecV) else ex.decode(s, RT.accessor(okc, 0)(r), okt)
        k = fresh(IntS, "anyidx")
        prove(ex, s, ["C11"], "the tokens are those written, in order", z3.Implies(isok, z3.And(b.len == X.Q[1](*z), z3.Implies(z3.And(k >= 0, k < b.len), z3.Select(b.arr, k) == z3.Select(X.Q[2](*z), k)))))
    start(ex, inst, st, [me], done)
    for o in ex.obls:
        if getattr(o, "tags", None) is None: o.tags = ["C10"]
