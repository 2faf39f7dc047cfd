"""C12: every way out of a scope runs its pending defers.  The analyser and then
the code generator are interpreted on function bodies in which scopes, defers and
exits are nested; the orders in which the emitted blocks can run the deferred
statements are compared with a reference execution of the body."""
import signal
import sys
from rules.util import *
from rules.fold import world, models, cint, Cfg, SEMA
from rules.bounds import context, local
from rules.traps import vec
from rules.dup import VECBASES, m_expand, m_vecsize, isvec
from cgen import mark, USED, INST, m_isconst
from absint import term

ERR = "sema_analyse_function_body"
P = lambda b: ("p", b, ())


def ident(p):
    """indices into the compiler's arenas stand for the nodes themselves"""
    return p


ID = ident
SEQ = ("G", "$seq")


class Prog:
    """builds the syntax tree of a body from nested tuples"""

    def __init__(self, W, T):
        self.W, self.T, self.n, self.labels = W, T, 0, {}

    def obj(self, kind):
        self.n += 1
        b = ("O", "%s:%d" % (kind, self.n))
        self.W.st.mem[b] = {("~",): 0}
        return b

    def set(self, b, path, v):
        self.W.st.setcell(b, tuple(path.split(".")), v)

    def ast(self, kind):
        b = self.obj("S")
        self.set(b, "ast_kind", self.W.e(kind))
        return b

    def expr(self, kind, type, **kw):
        b = self.obj("E")
        self.set(b, "expr_kind", self.W.e(kind))
        self.set(b, "type", type)
        self.set(b, "resolve_status", self.W.e("RESOLVE_DONE"))
        for k, v in kw.items():
            self.set(b, k.replace("__", "."), v)
        return P(b)

    def leaf(self, name, type):
        """a run-time local whose evaluation is an event or a choice"""
        d = ("O", "D:" + name)
        self.W.st.mem[d] = {("~",): 0}
        for k, v in (("decl_kind", "DECL_VAR"), ("resolve_status", "RESOLVE_DONE"), ("var.kind", "VARDECL_LOCAL")):
            self.set(d, k, self.W.e(v))
        self.set(d, "type", type)
        return self.expr("EXPR_IDENTIFIER", type, ident_expr=P(d))

    def event(self, name):
        d = ("O", "D:" + name)
        self.W.st.mem[d] = {("~",): 0}
        self.set(d, "decl_kind", self.W.e("DECL_FUNC"))
        self.set(d, "resolve_status", self.W.e("RESOLVE_DONE"))
        self.set(d, "type", self.T["void"])
        return self.expr("EXPR_CALL", self.T["void"], call_expr__func_ref=ID(P(d)), call_expr__is_func_ref=1)

    def cond(self, name, type):
        c = self.leaf(name, type)
        return self.expr("EXPR_COND", type, cond_expr=vec(self.W, "cond%d" % self.n, [c]), resolve_status=self.W.e("RESOLVE_NOT_DONE"))

    def macro(self, rtype, stmts, body):
        """a call of a macro, with or without a trailing body"""
        self.n += 1
        d = ("O", "M:%d" % self.n)
        self.W.st.mem[d] = {("~",): 0}
        for k, v in (("decl_kind", "DECL_MACRO"), ("resolve_status", "RESOLVE_DONE")):
            self.set(d, k, self.W.e(v))
        self.set(d, "name", self.name("m%d" % self.n))
        self.set(d, "unit", P(("O", "unit")))
        ti = self.obj("TI")
        self.set(ti, "resolve_status", self.W.e("RESOLVE_DONE"))
        self.set(ti, "type", self.T[rtype])
        self.set(d, "func_decl.signature.rtype", P(ti))
        self.set(d, "func_decl.signature.attrs.maydiscard", 1)
        self.set(d, "func_decl.body", P(self.block(stmts)))
        mb = 0
        if body is not None:
            bp = ("O", "BP:%d" % self.n)
            self.W.st.mem[bp] = {("~",): 0}
            self.set(bp, "decl_kind", self.W.e("DECL_BODYPARAM"))
            self.set(bp, "resolve_status", self.W.e("RESOLVE_DONE"))
            self.set(bp, "name", self.name("@body"))
            self.set(d, "func_decl.body_param", P(bp))
            mb = self.expr("EXPR_MACRO_BODY", 0, macro_body_expr__body=P(self.block(body)))
        return self.expr("EXPR_CALL", 0, call_expr__function=self.expr("EXPR_IDENTIFIER", self.T["void"], ident_expr=P(d)), call_expr__macro_body=mb, resolve_status=self.W.e("RESOLVE_NOT_DONE"))

    def chain(self, stmts):
        first = 0
        for s in reversed(stmts):
            b = self.stmt(s)
            self.set(b, "next", first)
            first = ID(P(b))
        return first

    def block(self, stmts):
        b = self.ast("AST_COMPOUND_STMT")
        self.set(b, "compound_stmt.first_stmt", self.chain(stmts))
        return b

    def name(self, s):
        """an interned name"""
        if not s:
            return 0
        b = ("O", "name:" + s)
        self.W.st.mem[b] = {("~",): 0}
        for i, c in enumerate(s):
            self.W.st.setcell(b, (i,), ord(c))
        return P(b)

    def label(self, b, name, field):
        if not name:
            return
        d = ("O", "L:" + name)
        self.W.st.mem[d] = {("~",): 0}
        self.set(d, "decl_kind", self.W.e("DECL_LABEL"))
        self.set(d, "name", self.name(name))
        self.set(d, "label.parent", ID(P(b)))
        self.set(b, field, ID(P(d)))

    def stmt(self, s):
        k = s[0]
        if k == "ev":
            b = self.ast("AST_EXPR_STMT")
            self.set(b, "expr_stmt", self.event(s[1]))
        elif k == "rethrow":
            b = self.ast("AST_EXPR_STMT")
            self.set(b, "expr_stmt", self.expr("EXPR_RETHROW", self.T["TYPE_I32"], rethrow_expr__inner=self.leaf(s[1], self.T["opt"]), resolve_status=self.W.e("RESOLVE_NOT_DONE")))
        elif k == "defer":
            b = self.ast("AST_DEFER_STMT")
            self.set(b, "defer_stmt.is_try", int(s[1] == "try"))
            self.set(b, "defer_stmt.is_catch", int(s[1] == "catch"))
            self.set(b, "defer_stmt.body", ID(P(self.block(s[2]))))
        elif k == "block":
            b = self.block(s[1])
        elif k == "if":
            _, c, then, els, lab = s
            b = self.ast("AST_IF_STMT")
            self.set(b, "if_stmt.cond", ID(self.cond(c, self.T["TYPE_BOOL"])))
            self.set(b, "if_stmt.then_body", ID(P(self.block(then))))
            self.set(b, "if_stmt.else_body", ID(P(self.block(els))) if els is not None else 0)
            self.label(b, lab, "flow.label")
        elif k in ("for", "do"):
            _, c, incr, body, lab = s
            b = self.ast("AST_FOR_STMT")
            self.set(b, "flow.skip_first", int(k == "do"))
            self.set(b, "for_stmt.cond", ID(self.cond(c, self.T["TYPE_BOOL"])) if c else 0)
            self.set(b, "for_stmt.incr", ID(self.expr("EXPR_EXPRESSION_LIST", self.T["void"], expression_list=vec(self.W, "incr%d" % self.n, [self.event(incr)]), resolve_status=self.W.e("RESOLVE_NOT_DONE"))) if incr else 0)
            self.set(b, "for_stmt.body", ID(P(self.block(body))))
            self.label(b, lab, "flow.label")
        elif k == "switch":
            _, c, cases, lab = s
            b = self.ast("AST_SWITCH_STMT")
            i32 = self.T["TYPE_I32"]
            self.set(b, "switch_stmt.cond", ID(self.cond(c, i32)))
            out = []
            for v, body in cases:
                cb = self.ast("AST_DEFAULT_STMT" if v == "default" else "AST_CASE_STMT")
                if v != "default":
                    self.n += 1
                    x = cint(self.W, "case%d" % self.n, i32, "TYPE_I32", v)
                    self.set(cb, "case_stmt.expr", ID(x))
                    self.set(cb, "case_stmt.to_expr", 0)
                self.set(cb, "case_stmt.body", P(self.block(body)) if body is not None else 0)
                out.append(P(cb))
            self.set(b, "switch_stmt.cases", vec(self.W, "cases%d" % self.n, out))
            self.label(b, lab, "flow.label")
        elif k == "ifchain":
            # a switch without an operand: the first case whose condition holds
            _, cases, lab = s
            b = self.ast("AST_SWITCH_STMT")
            out = []
            for v, body in cases:
                cb = self.ast("AST_DEFAULT_STMT" if v == "default" else "AST_CASE_STMT")
                if v != "default":
                    self.set(cb, "case_stmt.expr", ID(self.leaf(v, self.T["TYPE_BOOL"])))
                self.set(cb, "case_stmt.body", P(self.block(body)) if body is not None else 0)
                out.append(P(cb))
            self.set(b, "switch_stmt.cases", vec(self.W, "cases%d" % self.n, out))
            self.label(b, lab, "flow.label")
        elif k == "macro":
            b = self.ast("AST_EXPR_STMT")
            self.set(b, "expr_stmt", self.macro(*s[1:]))
        elif k == "body":
            b = self.ast("AST_EXPR_STMT")
            self.set(b, "expr_stmt", self.expr("EXPR_CALL", 0, call_expr__function=self.expr("EXPR_MACRO_BODY_EXPANSION", self.T["void"]), resolve_status=self.W.e("RESOLVE_NOT_DONE")))
        elif k in ("break", "continue"):
            b = self.ast("AST_BREAK_STMT" if k == "break" else "AST_CONTINUE_STMT")
            self.set(b, "contbreak_stmt.is_label", int(bool(s[1])))
            self.set(b, "contbreak_stmt.label.name", self.name(s[1]))
        elif k == "nextcase":
            b = self.ast("AST_NEXTCASE_STMT")
            lab, to = s[1], s[2]
            self.set(b, "nextcase_stmt.label.name", self.name(lab))
            self.set(b, "nextcase_stmt.is_default", int(to == "default"))
            if isinstance(to, int):
                self.n += 1
                x = cint(self.W, "to%d" % self.n, self.T["TYPE_I32"], "TYPE_I32", to)
            elif to not in ("default", None):
                x = self.leaf(to, self.T["TYPE_I32"])
            else:
                x = None
            self.set(b, "nextcase_stmt.expr", ID(x) if x else 0)
        elif k == "return":
            b = self.ast("AST_RETURN_STMT")
            m = s[1]
            self.set(b, "return_stmt.expr", 0 if m is None else self.leaf(s[2], self.T["TYPE_I32"]) if m == "val" else self.leaf(s[2], self.T["opt"]) if m == "opt" else
                     self.expr("EXPR_OPTIONAL", self.T["opt"], inner_expr=self.leaf(s[2], self.T["fault"])))
        else:
            raise AnalysisBroken("statement " + k)
        return b


# --- reference execution ---
class Need(Exception):
    pass


class Ref:
    """all traces of a body: the sequence of choices and events of each execution, cut after so many choices"""

    def __init__(self, limit):
        self.limit = limit

    def traces(self, body):
        out, work = set(), [()]
        while work:
            pre = work.pop()
            self.pre, self.i, self.tr, self.bodies = pre, 0, [], []
            try:
                r = self.seq(body, "fn")
                self.tr.append(("end", None) if r is None else ("ret",))
                out.add(tuple(t for t in self.tr))
            except Need as n:
                if len(pre) >= self.limit:
                    out.add(tuple(self.tr) + (("cut",),))
                else:
                    work.extend(pre + (v,) for v in n.args[0])
        return {tuple(x[:1] if x[0] == "end" else x for x in t) for t in out}

    def choose(self, name, vals):
        if self.i >= len(self.pre):
            raise Need(vals)
        v = self.pre[self.i]
        self.i += 1
        if len(self.tr) > 2000:
            raise AnalysisBroken("body without end")
        self.tr.append(("choice", None if name.startswith("s") else name, v))
        return v

    def run_defers(self, ds, fail):
        for kind, body in reversed(ds):
            if kind == "try" and fail or kind == "catch" and not fail:
                continue
            self.seq(body, "defer")

    def seq(self, stmts, what):
        """the statements of a scope; None or the exit taken"""
        ds, r = [], None
        for s in stmts:
            if s[0] == "defer":
                ds.append((s[1], s[2]))
                continue
            r = self.stmt(s)
            if r is not None:
                break
        x = r
        while x is not None and x[0] == "out":
            x = x[1]
        self.run_defers(ds, x is not None and x[0] == "return" and x[1])
        return r

    def stmt(self, s):
        k = s[0]
        if k == "ev":
            self.tr.append(("ev", s[1]))
        elif k == "rethrow":
            if not self.choose(s[1], (0, 1)):
                return ("return", True)
        elif k == "block":
            return self.seq(s[1], k)
        elif k == "if":
            _, c, then, els, lab = s
            v = self.choose(c, (0, 1))
            r = self.seq(then if v else els or [], k)
            if r is not None and r[0] == "break" and lab and r[1] == lab:
                return None
            return r
        elif k in ("for", "do"):
            _, c, incr, body, lab = s
            first = k == "do"
            while True:
                if c and not first and not self.choose(c, (0, 1)):
                    return None
                first = False
                r = self.seq(body, k)
                if r is not None:
                    if r[0] == "break" and r[1] in (None, lab):
                        return None
                    if not (r[0] == "continue" and r[1] in (None, lab)):
                        return r
                if incr:
                    self.tr.append(("ev", incr))
        elif k == "switch":
            _, c, cases, lab = s
            vals = [v for v, _ in cases if v != "default"]
            v = self.choose(c, tuple(vals) + ("other",))
            while True:
                i = next((j for j, (w, _) in enumerate(cases) if w == v), None)
                if i is None:
                    i = next((j for j, (w, _) in enumerate(cases) if w == "default"), None)
                if i is None:
                    return None
                while i < len(cases) - 1 and cases[i][1] is None:
                    i += 1
                r = self.seq(cases[i][1] or [], k)
                if r is None:
                    return None
                if r[0] == "break" and r[1] in (None, lab):
                    return None
                if r[0] == "nextcase" and r[1] in (None, lab):
                    v = r[2]
                    if v is None:
                        v = cases[i + 1][0]
                    elif isinstance(v, str) and v != "default":
                        v = self.choose(c, tuple(vals) + ("other",))
                    continue
                return r
        elif k == "ifchain":
            _, cases, lab = s
            i = 0
            d = None
            while i < len(cases):
                if cases[i][0] == "default":
                    d = i
                elif self.choose(cases[i][0], (0, 1)):
                    break
                i += 1
            else:
                i = d
            if i is None:
                return None
            while True:
                while i < len(cases) - 1 and cases[i][1] is None:
                    i += 1
                r = self.seq(cases[i][1] or [], k)
                if r is not None and r[0] == "nextcase" and r[1] in (None, lab):
                    i = next(j for j, c in enumerate(cases) if c[0] == "default") if r[2] == "default" else i + 1
                    continue
                return None if r is None or r[0] == "break" and r[1] in (None, lab) else r
        elif k == "macro":
            self.bodies.append(s[3])
            r = self.seq(s[2], k)
            self.bodies.pop()
            return r[1] if r is not None and r[0] == "out" else None
        elif k == "body":
            b = self.bodies.pop()
            r = self.seq(b, k)
            self.bodies.append(b)
            return ("out", r) if r is not None else None
        elif k in ("break", "continue"):
            return (k, s[1])
        elif k == "nextcase":
            return ("nextcase", s[1], s[2])
        elif k == "return":
            m = s[1]
            fail = m == "fault" or m == "opt" and not self.choose(s[2], (0, 1))
            if m and not fail:
                self.tr.append(("ev", "read " + s[2]))
            return ("return", fail)
        return None


# --- the compiler under interpretation ---
def tick(st):
    n = (st.mem.get(SEQ) or {}).get((), 0)
    st.setcell(SEQ, (), n + 1 if isinstance(n, int) else TOP)
    return n


def m_fresh(I, args, st, e):
    I.n += 1
    b = ("O", "new:%d" % I.n)
    st.mem[b] = {("~",): 0}
    return P(b)


def setbe(I, p, st, type, value, kind="BE_VALUE"):
    I.store(I.deref(p, st), ("st", ((("alignment",), 4), (("kind",), I.F.enumconst[kind]), (("optional",), 0), (("type",), type), (("value",), value)), 0), st)


def leafs(W, T):
    ec = W.F.enumconst

    def m(I, args, st, e):
        ex = args[2]
        if not (isinstance(ex, tuple) and ex[0] == "p"):
            return NotImplemented
        k = I.load([(ex[1], ex[2] + ("expr_kind",))], st)
        if k == ec["EXPR_CALL"]:
            f = I.load([(ex[1], ex[2] + ("call_expr", "func_ref"))], st)

            name = f[1][1][2:]
            st.must = st.must | {("ev", getpos(st), tick(st), name)}
            mark(st, INST, getpos(st))
            setbe(I, args[1], st, T["void"], 0)
            return 0
        if k == ec["EXPR_IDENTIFIER"]:
            d = I.load([(ex[1], ex[2] + ("ident_expr",))], st)
            name = d[1][1][2:]
            ty = I.load([(d[1], ("type",))], st)
            if ty == T["opt"]:
                blk = I.load([(("O", "ctx"), ("catch", "block"))], st)
                ok = ("y", ("bb", "has value", (tick(st),)))
                st.cons[ok] = ("ni", frozenset((0,)))
                st.must = st.must | {("condbr", getpos(st), ("t", "rval", (name, ty)), ok, blk)}
                mark(st, INST, getpos(st))
                mark(st, USED, blk)
                mark(st, USED, ok)
                st.setcell(("G", "$pos"), (), ok)
                st.setcell(("O", "ctx"), ("current_block",), ok)
                ty = T["TYPE_I32"]
            if ty == T["TYPE_BOOL"]:
                setbe(I, args[1], st, ty, ("t", "rval", (name, ty)), "BE_BOOLEAN")
            else:
                setbe(I, args[1], st, ty, ("t", "variable", (name,)), "BE_ADDRESS")
            return 0
        return NotImplemented
    return m


def m_newblock(I, args, st, e):
    name = args[-1]
    v = ("y", ("bb", name[1] if isinstance(name, tuple) and name[0] == "s" else "?", (tick(st),)))
    st.cons[v] = ("ni", frozenset((0,)))
    mark(st, USED, v, 0)
    mark(st, INST, v, 0)
    return v


FLOWS = ("for_stmt", "if_stmt", "switch_stmt", "foreach_stmt")


class Sema(CG):
    def lval(self, e, st):
        r = super().lval(e, st)
        if isinstance(r, list):
            r = [(b, p[1:] if len(p) > 1 and p[0] in FLOWS and p[1] == "flow" else p) for b, p in r]
        return r


class Gen(Sema):
    def ptreq(self, x, y):
        """every block is an object of its own"""
        if isbb(x) and isbb(y):
            return x == y
        if made(x) and y == 0 or made(y) and x == 0:
            return False
        return super().ptreq(x, y)

    def truth(self, v, st):
        return True if made(v) else super().truth(v, st)


def made(v):
    """the builder's results are never null"""
    return isinstance(v, tuple) and v[0] == "t" and (v[1].startswith("LLVMBuild") or v[1] in ("Alloca", "variable"))


def isbb(v):
    return isinstance(v, tuple) and v[0] == "y" and isinstance(v[1], tuple) and v[1][0] == "bb"


def m_reject(I, args, st, e):
    """an error is reported: this execution is over"""
    I.rejected = args[2][1] if len(args) > 2 and isinstance(args[2], tuple) and args[2][0] == "s" else "?"
    return []


def m_prune(I, args, st, e):
    """the discarding block becomes the current one; merging a block into its only predecessor is left out"""
    sub = lambda x: getpos(st) if x == args[1] else x
    st.must = frozenset(tuple(sub(x) for x in m) for m in st.must)
    mark(st, USED, getpos(st))
    return 0


def m_alloca(I, args, st, e):
    return term("Alloca", (tick(st),))


def m_load(I, args, st, e):
    a = args[2]
    if isinstance(a, tuple) and a[:2] == ("t", "variable"):
        st.must = st.must | {("ev", getpos(st), tick(st), "read " + a[2][0])}
    mark(st, INST, getpos(st))
    return term("LLVMBuildLoad2", (args[1], a, tick(st)))


def m_switch(I, args, st, e):
    # (builder, value, default, count)
    t = term("switch", (getpos(st), tick(st)))
    st.must = st.must | {("switch", getpos(st), t, args[2])}
    mark(st, INST, getpos(st))
    mark(st, USED, args[2])
    return t


def m_addcase(I, args, st, e):
    st.must = st.must | {("case", args[0], args[1], args[2])}
    mark(st, USED, args[2])
    return 0


def m_ret(I, args, st, e):
    st.must = st.must | {("ret", getpos(st))}
    mark(st, INST, getpos(st))
    return term("ret", (getpos(st),))


def walk(must, start, switches, limit):
    """all traces of the emitted blocks"""
    ev, br = {}, {}
    for m in must:
        if m[0] == "ev":
            ev.setdefault(m[1], []).append((m[2], m[3]))
        elif m[0] in ("condbr", "br", "ret", "unreachable", "switch"):
            br.setdefault(m[1], []).append(m)
    cases = {}
    for m in must:
        if m[0] == "case":
            cases.setdefault(m[1], []).append((m[2], m[3]))
    out, work = set(), [(start, (), 0, 0)]
    while work:
        b, tr, n, steps = work.pop()
        if steps > 200:
            return None, "blocks loop without a choice"
        tr = tr + tuple(("ev", x) for _, x in sorted(ev.get(b, []), key=lambda x: x[0] if isinstance(x[0], int) else -1) if not x.startswith("read s") and x != "read f")
        t = br.get(b, [])
        if len(t) > 1:
            return None, "block %s has %d terminators" % (b[1][1], len(t))
        if not t:
            out.add(tr + (("end",),))
            continue
        t = t[0]
        if t[0] == "ret":
            out.add(tr + (("ret",),))
        elif t[0] == "unreachable":
            out.add(tr + (("unreachable",),))
        elif t[0] == "br":
            work.append((t[2], tr, n, steps + 1))
        elif n >= limit:
            out.add(tr + (("cut",),))
        elif t[0] == "condbr":
            c = strip_conv(N(t[2]))
            name = c[1] if isinstance(c, tuple) and c[0] in ("rval", "boolval") else None
            if name is None and c[0] == "icmp" and c[1] == "32":
                # a case of a chain: the operand is the constant true
                name = c[2][1] if isinstance(c[2], tuple) and c[2][0] == "rval" else None
            if name is None:
                return None, "branch on %s is not understood" % (c,)
            for v, to in ((1, t[3]), (0, t[4])):
                work.append((to, tr + (("choice", name, v),), n + 1, steps + 1))
        else:
            name, vals = switches.get(t[1]) or (None, None)
            cs = cases.get(t[2], [])
            for v, to in cs:
                v = N(v)
                v = v[-1] if isinstance(v, tuple) else v
                work.append((to, tr + (("choice", None, v),), n + 1, steps + 1))
            work.append((t[3], tr + (("choice", None, "other"),), n + 1, steps + 1))
    return out, None


def shared(F):
    m = models(F, Cfg())
    same = lambda I, a, s, e: a[0]
    for x in ("exprptr", "astptr", "declptr", "type_infoptr"):
        m[x] = same
        m[x + "zero"] = same
    for x in ("exprid", "astid", "declid", "type_infoid"):
        m[x] = same
    m.update({"expr_calloc": m_fresh, "ast_calloc": m_fresh, "calloc_arena": m_fresh, "decl_calloc": m_fresh, "expand_": m_expand, "vec_size": m_vecsize, "LLVMBuildSwitch": m_switch, "LLVMAddCase": m_addcase,
              "LLVMCreateBasicBlockInContext": m_newblock, "LLVMAppendBasicBlockInContext": m_newblock, "LLVMBuildLoad2": m_load, "llvm_load": m_load, "LLVMBuildRet": m_ret, "LLVMBuildRetVoid": m_ret, "malloc_arena": m_fresh, "malloc": m_fresh, "error_exit": lambda I, a, s, e: [], "LLVMIsAConstantInt": m_isconst,
              "sema_error_at": m_reject, "print_error_at": m_reject, "sema_shadow_error": m_reject, "sema_verror_range": m_reject,
              "type_alloca_alignment": lambda I, a, s, e: 4, "global_context_acquire_locals_list": lambda I, a, s, e: 0, "global_context_release_locals_list": lambda I, a, s, e: 0, "llvm_emit_alloca": m_alloca, "llvm_prune_optional": m_prune})
    return m


def setup(F):
    W = world(F)
    T = W.t
    T["fault"] = T["TYPE_ANYFAULT"]
    T["opt"] = W.type("int?", "TYPE_OPTIONAL", optional=T["TYPE_I32"])
    sc = SEMA[1]
    W.st.mem[sc] = {("~",): 0}
    context(W)
    W.st.setcell(sc, ("rtype",), T["opt"])
    W.st.setcell(sc, ("call_env", "kind"), W.e("CALL_ENV_FUNCTION"))
    W.st.setcell(sc, ("unit",), P(("O", "unit")))
    W.st.setcell(sc, ("active_scope", "depth"), 1)
    W.st.setcell(sc, ("scope_id",), 1)
    VECBASES.add(("G", "copy_struct"))
    W.st.mem[("G", "copy_struct")] = {("~",): 0}
    W.st.mem[("O", "unit")] = {("~",): 0}
    W.ctx(debug__builder=0, catch__block=0, catch__fault=0, defer_error_var=0, cur_func__prototype=P(("O", "prototype")))
    pr, ai = ("O", "prototype"), ("O", "abi of return")
    for k, v in dict(is_optional=1, rtype=T["opt"], abi_ret_type=T["fault"], ret_abi_info=P(ai)).items():
        W.st.setcell(pr, (k,), v)
    W.st.setcell(ai, ("kind",), W.e("ABI_ARG_DIRECT"))
    return W, T


def one(F, body, limit=5, show=None):
    W, T = setup(F)
    b = Prog(W, T).block(body)
    mods = shared(F)
    mods["llvm_emit_expr"] = leafs(W, T)
    I = Sema(F, models=mods)
    I.opaque = set(I.opaque) - {"calloc_arena"}
    I.n = 0
    I.max_rec, I.max_depth = 40, 200
    I.unroll = 64
    I.precise_goto = True
    out = []
    for st, v in runs(I, "sema_analyse_statement", [SEMA, P(b)], W.st):
        for x in elems(v) if v != TOP else [TOP]:
            out.append((x, st))
    if show:
        print("sema", [(x) for x, _ in out])
    res = []
    for x, st in out:
        if x != 1:
            continue
        I2 = Gen(F, models=mods)
        I2.opaque, I2.n, I2.max_rec, I2.max_depth, I2.precise_goto, I2.unroll = I.opaque, I.n, 40, 200, True, 64
        st.must = frozenset()
        for st2, _ in runs(I2, "llvm_emit_stmt", [CTX, P(b)], st):
            res.append(st2)
        I.analysed |= I2.analysed
    return I, [x for x, _ in out], res


# --- the bodies ---
def D(n, kind="plain"):
    return ("defer", kind, [("ev", n)])


def level(k, inner):
    """the statements of one scope around an inner construct: two defers, one of each kind, and one registered too late"""
    return [D("a%d" % k), D("y%d" % k, "try"), D("k%d" % k, "catch"), D("b%d" % k), inner, ("ev", "after%d" % k), D("late%d" % k)]


LOOPS, SWS = ("while", "do", "loop", "for"), ("case", "mid", "default", "last")
CHAINS = ("chain", "chainlast")
MACROS = ("macro", "macrobody")
WRAP = ("block", "then", "else") + LOOPS + SWS + CHAINS + MACROS


def wrap(w, k, stmts, lab):
    c, s = "c%d" % k, "s%d" % k
    if w == "block":
        return ("block", stmts)
    if w == "then":
        return ("if", c, stmts, [D("e%d" % k), ("ev", "else%d" % k)], lab)
    if w == "else":
        return ("if", c, [D("e%d" % k), ("ev", "then%d" % k)], stmts, lab)
    if w == "while":
        return ("for", c, None, stmts, lab)
    if w == "for":
        return ("for", c, "incr%d" % k, stmts, lab)
    if w == "loop":
        return ("for", None, "incr%d" % k, [D("q%d" % k), ("if", c, [("break", None)], None, None)] + stmts, lab)
    if w == "do":
        return ("do", c, None, stmts, lab)
    if w == "macro":
        return ("macro", "opt", stmts + ([("return", "val", "v%d" % k)] if stmts[-1][0] in ("ev", "defer", "rethrow") else []), None)
    if w == "macrobody":
        return ("macro", "opt", [D("m%d" % k), D("n%d" % k, "try"), D("p%d" % k, "catch"), ("body",), ("ev", "aftermacro%d" % k), D("latemacro%d" % k), ("return", "val", "v%d" % k)], stmts)
    oth = lambda i: [D("o%d_%d" % (k, i)), ("ev", "case%d_%d" % (k, i))]
    if w == "case":
        cs = [(1, stmts), (2, oth(2)), ("default", oth(9))]
    elif w == "mid":
        cs = [(1, oth(1)), (2, None), (3, stmts), (4, oth(4))]
    elif w == "default":
        cs = [(1, oth(1)), ("default", stmts), (2, oth(2))]
    else:
        cs = [(1, None), (2, oth(2)), (3, stmts)]
    if w in CHAINS:
        cs = [(c, stmts), (c + "x", None), (c + "y", oth(2)), ("default", oth(9))] if w == "chain" else [("default", oth(9)), (c, oth(1)), (c + "y", stmts)]
        return ("ifchain", cs, lab)
    return ("switch", s, cs, lab)


def exits(chain):
    """every exit possible at the end of a chain of wrappers (outermost first); labels are L0, L1, .."""
    out = [None, ("rethrow", "x"), ("return", "val", "v"), ("return", "opt", "o"), ("return", "fault", "f")]
    lo = max([-1] + [i for i, w in enumerate(chain) if w == "macro"])
    loops = [i for i, w in enumerate(chain) if w in LOOPS and i > lo]
    sws = [i for i, w in enumerate(chain) if w in SWS + CHAINS and i > lo]
    if loops or sws:
        out.append(("break", None))
    if loops:
        out.append(("continue", None))
    for i, w in enumerate(chain):
        if i <= lo or w in MACROS:
            continue
        if w in CHAINS:
            for l in ("L%d" % i,) + ((None,) if i == sws[-1] else ()):
                out.append(("break", l))
                if not l and w == "chain":
                    out.append(("nextcase", l, None))
                out.append(("nextcase", l, "default"))
            continue
        if w != "block":
            out.append(("break", "L%d" % i))
        if w in LOOPS:
            out.append(("continue", "L%d" % i))
        if w in SWS:
            labs = ("L%d" % i,) + ((None,) if i == sws[-1] else ())
            for l in labs:
                if w != "last" or l:
                    out.append(("nextcase", l, 4 if w == "mid" else 2))
                if w in ("case", "default", "mid") and not l:
                    out.append(("nextcase", l, None))
                if w in ("case", "default"):
                    out.append(("nextcase", l, "default"))
                out.append(("nextcase", l, "s%d" % i))
    return out


def body(chain, ex, cond):
    if ex is None:
        inner = [D("i"), ("ev", "in")]
    elif cond:
        inner = [D("i"), ("if", "cx", [D("j"), ex], None, None), ("ev", "in")]
    else:
        inner = [D("i"), ("ev", "in"), ex]
    for k in reversed(range(len(chain))):
        lab = "L%d" % k
        inner = level(k, wrap(chain[k], k, inner, lab))
    return inner


def bodies(thorough=False):
    for w in WRAP:
        for ex in exits((w,)):
            for cond in (False, True):
                if not cond and w == "default" and ex and ex[0] == "nextcase" and ex[2] == "default":
                    continue  # for ever
                yield (w,), ex, cond, body((w,), ex, cond)
    for w in WRAP:
        if not thorough and w in ("else", "default", "last", "chainlast", "loop"):
            continue  # outermost; they are varied as inner scopes and alone
        for w2 in WRAP:
            for ex in exits((w, w2)):
                yield (w, w2), ex, True, body((w, w2), ex, True)
    if thorough:
        few = ("block", "then", "while", "case", "macrobody")
        for c in ((a, b, d) for a in few for b in few for d in few):
            for ex in exits(c):
                yield c, ex, True, body(c, ex, True)


def defer_bodies():
    """what a deferred statement may contain"""
    e = lambda n: ("ev", n)
    yield "if", [("if", "k1", [e("x1")], [e("x2")], None), e("x3")]
    yield "while", [("for", "k1", "ki", [D("kd"), ("if", "k2", [("break", None)], None, None), ("if", "k3", [("continue", None)], None, None), e("x1")], None), e("x2")]
    yield "labelled", [("for", "k1", "ki", [D("kd"), ("for", "k2", None, [D("kf"), ("if", "k3", [("break", "K")], [("continue", "K")], None)], None)], "K"), e("x2")]
    yield "nested", [D("kd"), ("block", [D("kf"), e("x1")]), e("x2")]
    yield "switch", [("switch", "sk", [(1, [D("kd"), ("nextcase", None, None)]), (2, [e("x1"), ("break", None)]), ("default", [D("kf"), ("nextcase", None, 1)])], None), e("x3")]


def deferring():
    for n, d in defer_bodies():
        for kind in ("plain", "try", "catch"):
            for w in ("while", "block", "case", "macrobody"):
                for ex in (None, ("break", None), ("continue", None), ("return", "val", "v"), ("return", "opt", "o"), ("rethrow", "x")):
                    if ex and ex[0] in ("break", "continue") and w != "while" and not (w == "case" and ex[0] == "break"):
                        continue
                    inner = [("defer", kind, d), ("if", "cx", [ex], None, None) if ex else ("ev", "q"), ("ev", "in")]
                    b = [D("a"), ("defer", kind, [("ev", "u")]), wrap(w, 0, inner, None), ("ev", "after")]
                    yield "defer %s %s in %s, %s" % (kind, n, w, "-".join(str(x) for x in ex or ("fall",) if x)), b


def one_ob(F, b, limit):
    I, verdicts, res = one(F, b, limit)
    if not res or 1 not in verdicts or getattr(I, "rejected", None):
        return I, "the analyser rejects the body: %s" % getattr(I, "rejected", "")
    if [v for v in verdicts if v != 1]:
        return I, "the analyser's verdict is not decided: %s" % (verdicts,)
    exp = Ref(limit).traces(b)
    for st in res:
        got, why = walk(st.must, ("y", ("bb", "entry", ())), {}, limit)
        if why:
            return I, why
        if got != exp:
            x = sorted(got - exp, key=repr)[:1]
            y = sorted(exp - got, key=repr)[:1]
            return I, "%s%s" % ("the emitted code can run %s" % tr(x[0]) if x else "", "; it never runs %s" % tr(y[0]) if y else "")
    return I, None


def tr(t):
    return " ".join("%s=%s" % (x[1] or "switch", x[2]) if x[0] == "choice" else x[1] if x[0] == "ev" else "<%s>" % x[0] for x in t)


def late(*a):
    raise AnalysisBroken("no result within a minute")


def job(a):
    signal.signal(signal.SIGALRM, late)
    F, items, limit = a
    out, fns = [], set()
    for name, b in items:
        signal.alarm(60)
        try:
            I, why = one_ob(F, b, limit)
            fns |= I.analysed
        except Exception as ex:
            why = "!" + repr(ex)
        signal.alarm(0)
        out.append((name, why))
    return out, fns


def pool(F, items, limit):
    import multiprocessing as mp
    global _F
    _F = F
    n = max(1, min(8, mp.cpu_count()))
    with mp.get_context("fork").Pool(n) as p:
        for out, fns in p.imap_unordered(pjob, [(items[i::4 * n], limit) for i in range(4 * n)]):
            yield out, fns


def pjob(a):
    return job((_F, a[0], a[1]))


def c12(F, Rep):
    sys.setrecursionlimit(60000)
    items = []
    for chain, ex, cond, b in bodies(Rep.tier == "thorough"):
        items.append(("%s %s%s" % ("/".join(chain), "fall" if ex is None else "-".join(str(x) for x in ex if x is not None), " conditional" if cond and ex else ""), b))
    items += list(deferring())
    Rep.need("exit", 2000)
    Rep.count("bodies", len(items))
    res = []
    for out, fns in pool(F, items, 4):
        res += out
        Rep.fn(*fns)
    broken = [(n, w) for n, w in res if w and w[0] == "!"]
    for n, w in sorted(res, key=lambda x: (x[0], x[1] or "")):
        if not (w and w[0] == "!"):
            Rep.ob("exit", n, w is None, "sema_stmts.c", w or "")
    if broken:
        raise AnalysisBroken("%d bodies not analysable, first %s: %s" % (len(broken), broken[0][0], broken[0][1][1:]))
