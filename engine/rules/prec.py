"""C31: the parser is interpreted on every pair of operators; the tree it builds
must be the one the published precedence table gives."""
from rules.util import *
from absint import Interp, State
from facts import AnalysisBroken
from rules.dup import m_memcpy, m_vecsize

P = lambda b, *p: ("p", b, tuple(p))

BIN = {}
for lvl, ops in ((9, "STAR:MULT DIV:DIV MOD:MOD"), (8, "SHL:SHL SHR:SHR"), (7, "BIT_XOR:BIT_XOR BIT_OR:BIT_OR AMP:BIT_AND"), (6, "PLUS:ADD MINUS:SUB"),
                 (5, "EQEQ:EQ NOT_EQUAL:NE LESS:LT LESS_EQ:LE GREATER:GT GREATER_EQ:GE"), (4, "AND:AND CT_AND:CT_AND"), (3, "OR:OR CT_OR:CT_OR"),
                 (2, "QUESTQUEST:ELSE"),
                 (1, "EQ:ASSIGN PLUS_ASSIGN:ADD_ASSIGN MINUS_ASSIGN:SUB_ASSIGN MULT_ASSIGN:MULT_ASSIGN DIV_ASSIGN:DIV_ASSIGN MOD_ASSIGN:MOD_ASSIGN "
                     "BIT_AND_ASSIGN:BIT_AND_ASSIGN BIT_OR_ASSIGN:BIT_OR_ASSIGN BIT_XOR_ASSIGN:BIT_XOR_ASSIGN SHL_ASSIGN:SHL_ASSIGN SHR_ASSIGN:SHR_ASSIGN")):
    for o in ops.split():
        t, b = o.split(":")
        BIN[t] = (lvl, b)
RIGHT = {1, 2}
UN = {"STAR": "DEREF", "AMP": "ADDR", "AND": "TADDR", "BIT_NOT": "BITNEG", "BANG": "NOT", "MINUS": "NEG", "PLUS": "PLUS", "PLUSPLUS": "INC", "MINUSMINUS": "DEC"}
POST = {"PLUSPLUS": "INC", "MINUSMINUS": "DEC"}
POSTK = {"BANG": "RETHROW", "BANGBANG": "FORCE_UNWRAP"}
PLAIN = {"MULT_ASSIGN": "MULT", "ADD_ASSIGN": "ADD", "SUB_ASSIGN": "SUB", "DIV_ASSIGN": "DIV", "MOD_ASSIGN": "MOD", "BIT_AND_ASSIGN": "BIT_AND",
         "BIT_OR_ASSIGN": "BIT_OR", "BIT_XOR_ASSIGN": "BIT_XOR", "SHR_ASSIGN": "SHR", "SHL_ASSIGN": "SHL"}


class Ref:
    """the published grammar, by precedence climbing"""

    def __init__(self, toks):
        self.t, self.i = list(toks) + ["EOS"], 0

    def peek(self):
        return self.t[self.i]

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def primary(self):
        t = self.next()
        if t == "LPAREN":
            e = self.expr(1)
            assert self.next() == "RPAREN"
        elif t in UN or t == "BANGBANG":
            e = self.primary()
            if t == "BANGBANG":
                return ("un", "NOT", ("un", "NOT", e))
            return ("un", UN[t], e)
        else:
            assert t.islower(), t
            e = t
        return self.postfix(e)

    def starts(self, i):
        t = self.t[i]
        return t.islower() or t in UN or t in ("LPAREN", "BANGBANG")

    def postfix(self, e):
        while True:
            t = self.peek()
            if t in POST:
                self.next()
                e = ("post", POST[t], e)
            elif t in POSTK:
                self.next()
                e = (POSTK[t], e)
            else:
                return e

    def expr(self, level):
        e = self.primary()
        while True:
            t = self.peek()
            if t in BIN and BIN[t][0] >= level:
                self.next()
                lvl = BIN[t][0]
                e = ("bin", BIN[t][1], e, self.expr(lvl if lvl in RIGHT else lvl + 1))
            elif t == "ELVIS" and level <= 2:
                self.next()
                e = ("cond", e, None, self.expr(2))
            elif t == "QUESTION" and level <= 2:
                self.next()
                if not self.starts(self.i):
                    e = ("optional", e)
                    continue
                a = self.expr(1)
                assert self.next() == "COLON"
                e = ("cond", e, a, self.expr(2))
            else:
                return e


def parse(F, toks):
    W = World(F)
    st = W.st
    ec = F.enumconst
    FEED, CTX = ("O", "feed"), ("O", "context")
    st.mem[CTX] = {("~",): 0}
    st.mem[FEED] = {("i",): 0}
    st.setcell(("G", "kw_return"), (), P(("O", "name:return")))
    toks = list(toks) + ["EOS", "EOS", "EOS"]

    def m_next(I, a, s, e):
        i = s.mem[FEED][("i",)]
        t = toks[min(i, len(toks) - 1)]
        lv = I.deref(a[0], s)
        b, p = lv[0]
        s.setcell(b, p + ("token_type",), ec["TOKEN_IDENT" if t.islower() else "TOKEN_" + t])
        s.setcell(b, p + ("data", "string"), P(("O", "name:" + t)))
        s.setcell(FEED, ("i",), i + 1)
        return 1

    def m_fresh(I, a, s, e):
        I.n += 1
        b = ("O", "new:%d" % I.n)
        s.mem[b] = {("~",): 0}
        return P(b)

    def m_err(I, a, s, e):
        I.rejected = "an error is reported"
        return ("y", "void")
    ident = lambda I, a, s, e: a[0]
    m = {"lexer_next_token": m_next, "expr_calloc": m_fresh, "calloc_arena": m_fresh, "malloc_arena": m_fresh, "ast_calloc": m_fresh, "sema_verror_range": m_err, "print_error_at": m_err,
         "extend_span_with_token": lambda I, a, s, e: a[0], "memcpy": m_memcpy, "exprid": ident, "exprptr": ident, "exprptrzero": ident, "vec_size": m_vecsize}
    I = Interp(F, models=m)
    I.n, I.rejected = 0, None
    I.unroll, I.precise_goto, I.max_rec, I.max_depth = 40, True, 40, 200
    states = [st]
    for _ in range(2):
        states = [x for s in states for x, _v in runs(I, "advance", [P(CTX)], s)]
    out = []
    for s in states:
        for s2, v in runs(I, "parse_expr", [P(CTX)], s):
            nxt = I.load([(CTX, ("tok",))], s2)
            out.append((tree(F, I, s2, v), nxt))
    return I, out


def runs(I, name, args, st):
    r = I.run(name, args, st)
    return r if isinstance(r, list) else [r]


def tree(F, I, st, v, d=0):
    if v == 0:
        return None
    if d > 30 or not isinstance(v, tuple) or v[0] != "p":
        return ("?", show(v))
    g = lambda *p: I.load([(v[1], v[2] + tuple(p))], st)
    k = g("expr_kind")
    names = {x: n for n, x in F.enums["ExprKind"]["vals"]}
    bo = {x: n for n, x in F.enums["BinaryOp"]["vals"] if n != "BINARYOP_LAST"}
    uo = {x: n for n, x in F.enums["UnaryOp"]["vals"]}
    k = names.get(k, k) if isinstance(k, int) else show(k)
    T = lambda *p: tree(F, I, st, g(*p), d + 1)
    if k == "EXPR_UNRESOLVED_IDENTIFIER":
        s = g("unresolved_ident_expr", "ident")
        return s[1][1][5:] if isinstance(s, tuple) and s[0] == "p" and str(s[1][1]).startswith("name:") else ("?", show(s))
    if k == "EXPR_BINARY":
        return ("bin", bo.get(g("binary_expr", "operator"), "?")[9:], T("binary_expr", "left"), T("binary_expr", "right"))
    if k == "EXPR_UNARY":
        return ("un", uo.get(g("unary_expr", "operator"), "?")[8:], T("unary_expr", "expr"))
    if k == "EXPR_POST_UNARY":
        return ("post", uo.get(g("unary_expr", "operator"), "?")[8:], T("unary_expr", "expr"))
    if k == "EXPR_TERNARY":
        return ("cond", T("ternary_expr", "cond"), T("ternary_expr", "then_expr"), T("ternary_expr", "else_expr"))
    if k == "EXPR_RETHROW":
        return ("RETHROW", T("rethrow_expr", "inner"))
    if k == "EXPR_FORCE_UNWRAP":
        return ("FORCE_UNWRAP", T("inner_expr"))
    if k == "EXPR_OPTIONAL":
        return ("optional", T("inner_expr"))
    return ("?", k)


def lit(F, name):
    """file scope tables that are never written are their initialisers"""
    g = F.gvars.get(name)
    if g is None:
        raise AnalysisBroken("table %s not found" % name)
    if name not in F.written:
        g["const"] = 1


def streams():
    spell = lambda l: l
    for a in BIN:
        yield "pair", ["a", a, "b"]
        for b in BIN:
            yield "pair", ["a", a, "b", b, "c"]
    for a in BIN:
        for u in list(UN) + ["BANGBANG"]:
            yield "unary", [u, "a", a, "b"]
            yield "unary", ["a", a, u, "b"]
            yield "unary", ["a", a, u, "b", a, "c"]
        for p in list(POST) + list(POSTK):
            yield "postfix", ["a", p, a, "b"]
            yield "postfix", ["a", a, "b", p]
        yield "cond", ["a", a, "b", "QUESTION", "c", "COLON", "d"]
        yield "cond", ["a", "QUESTION", "b", a, "c", "COLON", "d"]
        yield "cond", ["a", "QUESTION", "b", "COLON", "c", a, "d"]
        yield "cond", ["a", a, "b", "ELVIS", "c"]
        yield "cond", ["a", "ELVIS", "b", a, "c"]
        yield "cond", ["a", a, "b", "QUESTION"]
        for b in BIN:
            yield "group", ["LPAREN", "a", a, "b", "RPAREN", b, "c"]
            yield "group", ["a", a, "LPAREN", "b", b, "c", "RPAREN"]
    for u in list(UN) + ["BANGBANG"]:
        yield "unary", [u, "a"]
        for p in list(POST) + list(POSTK):
            yield "postfix", [u, "a", p]
        for v in list(UN) + ["BANGBANG"]:
            yield "unary", [u, v, "a"]
        yield "cond", [u, "a", "QUESTION", "b", "COLON", "c"]
    for p in list(POST) + list(POSTK):
        for q in list(POST) + list(POSTK):
            yield "postfix", ["a", p, q]
    yield "cond", ["a", "QUESTION", "b", "COLON", "c", "QUESTION", "d", "COLON", "e"]
    yield "cond", ["a", "QUESTION", "b", "QUESTION", "c", "COLON", "d", "COLON", "e"]
    yield "cond", ["a", "ELVIS", "b", "ELVIS", "c"]
    yield "cond", ["a", "ELVIS", "b", "QUESTION", "c", "COLON", "d"]
    yield "cond", ["a", "QUESTION", "BANG"]
    for a in ("PLUS", "AND", "LESS"):
        for b in ("STAR", "OR", "SHL"):
            for c in ("MINUS", "BIT_OR", "EQ"):
                yield "triple", ["a", a, "b", b, "c", c, "d"]


def c31(F, Rep):
    for t in ("rules", "binary_op", "unary_op", "assign_binop"):
        if t in F.gvars:
            lit(F, t)
    from rules.tokens import OPS
    sp = {v: k for k, v in OPS.items()}
    for rule, toks in streams():
        txt = " ".join(sp.get(t, t) for t in toks)
        I, out = parse(F, toks)
        Rep.fn(*[a for a, _ in I.analysed])
        if toks[-1] == "BANG" and toks[-2] == "QUESTION":
            want = ("RETHROW", ("optional", "a"))
        else:
            want = Ref(toks).expr(1)
        ok = bool(out) and not I.rejected and all(t == want and n == F.enumconst["TOKEN_EOS"] for t, n in out)
        Rep.ob(rule, txt, ok, "parse_expr.c", "parses as %s%s instead of %s" % (I.rejected or "", [o[0] for o in out][:2], want))
    for a, b in PLAIN.items():
        I = Interp(F)
        vals = {v for _, v in runs(I, "binaryop_assign_base_op", [F.enumconst["BINARYOP_" + a]], State())}
        Rep.ob("compound", "%s performs %s" % (a, b), vals == {F.enumconst["BINARYOP_" + b]}, "ast.c", str(vals))
        Rep.fn(*[x for x, _ in I.analysed])
    Rep.need("pair", 700)
    Rep.need("unary", 600)
    Rep.need("group", 1000)
