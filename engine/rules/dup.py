"""C13: copying code.  The copier is interpreted once per kind of node (and per
variant of its payload) on an object whose every child is a distinct known
object; each child of the result must be a copy of the corresponding child of
the original, references into copied code must be redirected, and the original
must come out unchanged."""
from absint import Interp, State, TOP, elems, isset, mkset, term, isvec, VECBASES
from facts import AnalysisBroken
from rules import shapes

NODE = {"struct Expr_ *": "Expr", "struct Ast_ *": "Ast", "struct Decl_ *": "Decl", "struct TypeInfo_ *": "TypeInfo"}
RECORD = {"Expr": "Expr_", "Ast": "Ast_", "Decl": "Decl_", "TypeInfo": "TypeInfo_"}
CS = ("G", "copy_struct")


def P(b, path=()):
    return ("p", b, path)


# members of one union that share a cell (all are pointers or all are ids)
ALIAS = {("expr_asm_arg", "expr_id"): "base", ("call_expr", "vasplat"): "varargs", ("define_decl", "alias_expr"): "alias"}


def ALIAS_PATH(p):
    if len(p) >= 2 and p[-2:] in ALIAS:
        return p[:-1] + (ALIAS[p[-2:]],)
    return p


class Shape:
    """one synthetic node of a kind, with all of its children"""

    def __init__(self, F, nodetype, kind, assume, fields):
        self.F = F
        self.st = State()
        self.kind = kind
        self.kids = {}       # base of child -> (path, nodetype)
        self.xargs = set()
        self.parts = set()   # bases belonging to the original
        self.expect = []     # (object base, path, class, child...)
        self.flags = {}
        self.root = ("O", "src")
        self.tag = {"Expr": "expr_kind", "Ast": "ast_kind", "Decl": "decl_kind", "TypeInfo": "kind", "Init": "kind"}[nodetype]
        self.obj(self.root, "src")
        self.set(self.root, self.tag, F.enumconst[kind])
        self.fill(self.root, assume, fields)

    def obj(self, base, name):
        self.parts.add(base)
        self.st.mem.setdefault(base, {})
        return P(base)

    def set(self, base, path, v):
        self.st.setcell(base, tuple(path.split(".")), v)

    def fill(self, base, assume, fields):
        for a in assume.split():
            k, _, v = a.partition("=")
            if k.startswith("$"):
                self.flags[k] = True
                continue
            if v not in self.F.enumconst and not v.isdigit():
                raise AnalysisBroken("enumerator %s not found" % v)
            self.set(base, k, self.F.enumconst.get(v) if v in self.F.enumconst else int(v))
        for f in fields.split():
            path, _, cls = f.partition(":")
            self.child(base, path, cls)

    def node(self, name, nt, kind=None, assume=""):
        b = ("O", "kid:" + name)
        self.kids[b] = (name, nt)
        self.parts.add(b)
        self.st.mem.setdefault(b, {})
        defaults = {"Expr": ("expr_kind", "EXPR_NOP"), "Ast": ("ast_kind", "AST_NOP_STMT"), "Decl": ("decl_kind", "DECL_VAR"), "TypeInfo": ("kind", "TYPE_INFO_IDENTIFIER")}[nt]
        self.set(b, defaults[0], self.F.enumconst[kind or defaults[1]])
        if nt == "Decl":
            self.set(b, "var.kind", self.F.enumconst["VARDECL_LOCAL"])
        if nt == "Ast":
            self.set(b, "next", 0)
        return P(b)

    def ident(self, p):
        t = term("id", (p,))
        self.st.cons[t] = ("ni", frozenset((0,)))
        return t

    def vec(self, name, items):
        b = ("V", name)
        self.parts.add(b)
        self.st.mem[b] = {("$size",): len(items)}
        for i, x in enumerate(items):
            self.st.setcell(b, (i,), x)
        return P(b, (0,))

    def child(self, base, path, cls):
        name = path if base == self.root else "%s/%s" % (base[1], path)
        nt = {"E": "Expr", "e": "Expr", "A": "Ast", "a": "Ast", "D": "Decl", "d": "Decl", "T": "TypeInfo", "t": "TypeInfo"}
        pt = ALIAS_PATH(tuple(path.split(".")))
        if cls[0] == "r":
            n = {"D": "Decl", "d": "Decl", "a": "Ast"}[cls[1]]
            p = self.node(name, n)
            del self.kids[p[1]]
            v = p if cls[1] == "D" else self.ident(p)
            self.expect.append((base, pt, cls, p))
        elif cls == "L":
            p = self.node(name, "Decl")
            v = p
            self.expect.append((base, pt, "D", p))
        elif len(cls) == 2 and cls in ("E*", "A*", "D*", "T*"):
            ks = [self.node("%s[%d]" % (name, i), nt[cls[0]]) for i in range(2)]
            v = self.vec(name, ks)
            self.expect.append((base, pt, cls, ks))
        elif cls in nt:
            p = self.node(name, nt[cls])
            v = p if cls.isupper() else self.ident(p)
            self.expect.append((base, pt, cls, p))
        elif cls in ("I", "I*", "G*", "P", "C*", "B", "X*", "R"):
            v = self.compound(base, pt, name, cls)
        else:
            raise AnalysisBroken("class " + cls)
        self.st.setcell(base, pt, v)

    def sub(self, name):
        b = ("O", "sub:" + name)
        self.obj(b, name)
        return b

    def compound(self, base, pt, name, cls):
        ec = self.F.enumconst
        if cls == "I":
            b = self.sub(name)
            self.set(b, "kind", ec["CONST_INIT_VALUE"])
            self.child(b, "init_value", "E")
            self.expect.append((base, pt, "S", b))
            return P(b)
        if cls == "R" or cls == "B":
            b = self.sub(name)
            self.expect.append((base, pt, "S", b))
            if cls == "R":
                self.child(b, "tags", "G*")
            else:
                self.child(b, "asm_stmt", "a")
                self.child(b, "output_vars", "X*")
                self.child(b, "input", "X*")
            return P(b)
        items = []
        if cls == "I*":
            for i in range(2):
                b = self.sub("%s[%d]" % (name, i))
                self.set(b, "kind", ec["CONST_INIT_VALUE"])
                self.child(b, "init_value", "E")
                items.append(b)
        elif cls == "G*":
            for i in range(2):
                b = self.sub("%s[%d]" % (name, i))
                self.child(b, "exprs", "E*")
                items.append(b)
        elif cls == "P":
            for k, fs in (("DESIGNATOR_FIELD", "field_expr:E"), ("DESIGNATOR_ARRAY", "index_expr:E"), ("DESIGNATOR_RANGE", "index_expr:E index_end_expr:E")):
                b = self.sub("%s[%s]" % (name, k))
                self.set(b, "kind", ec[k])
                self.fill(b, "", fs)
                items.append(b)
        elif cls == "C*":
            for k, fs in (("AST_CASE_STMT", "case_stmt.expr:e case_stmt.to_expr:e case_stmt.body:A"), ("AST_DEFAULT_STMT", "case_stmt.body:A")):
                b = self.sub("%s[%s]" % (name, k))
                self.set(b, "ast_kind", ec[k])
                self.set(b, "next", 0)
                self.fill(b, "", fs)
                items.append(b)
        elif cls == "X*":
            for i, (k, fs) in enumerate((("ASM_ARG_REGVAR", "ident.ident_decl:rD"), ("ASM_ARG_VALUE", "expr_id:e"))):
                b = self.sub("%s[%d]" % (name, i))
                self.xargs.add(b)
                self.set(b, "kind", ec[k])
                self.fill(b, "", fs)
                items.append(b)
        self.expect.append((base, pt, "S*", items))
        return self.vec(name, [P(b) for b in items])


ASM_ARGS = set()


def copyof(p):
    return ("p", ("O", "copy:" + p[1][1]), p[2])


class Copier(Interp):
    def __init__(self, F, shape):
        self.shape = shape
        self.seq = []        # (child base, fixup table at that moment)
        self.n = 0
        m = {}
        for nm in ("expr", "ast", "decl", "type_info"):
            m[nm + "ptr"] = m_ptr
            m[nm + "ptrzero"] = m_ptrzero
            m[nm + "id"] = m_id
            m[nm + "_calloc"] = m_fresh
        m.update({"vmem_alloc": m_fresh, "malloc_arena": m_fresh, "calloc_arena": m_fresh, "malloc": m_fresh, "calloc": m_fresh, "type_new": m_fresh,
                  "memcpy": m_memcpy, "expand_": m_expand, "vec_size": m_vecsize, "error_exit": m_stop})
        super().__init__(F, models=m)
        self.precise_goto = True

    def table(self, st):
        d = st.mem.get(CS, {})
        cur = d.get(("current_fixup",))
        if not isvec(cur):
            return None
        n = cur[2][-1]
        return [(d.get(("fixups", i, "original")), d.get(("fixups", i, "new_ptr"))) for i in range(n)]

    def register(self, st, a, c):
        cur = st.mem.get(CS, {}).get(("current_fixup",))
        if isvec(cur):
            i = cur[2][-1]
            st.setcell(CS, ("fixups", i, "original"), a)
            st.setcell(CS, ("fixups", i, "new_ptr"), c)
            st.setcell(CS, ("current_fixup",), ("p", CS, ("fixups", i + 1)))

    def ours(self, a):
        return isinstance(a, tuple) and a[0] == "p" and (a[1] in self.shape.parts or str(a[1][1]).startswith("new:"))

    def lval(self, e, st):
        r = super().lval(e, st)
        if e[0] == "mem" and r and r != TOP:
            r = [(b, ALIAS_PATH(p)) for b, p in r]
        return r

    def call_named(self, name, args, st, e):
        fn = self.resolve(name) if name else None
        if fn is not None and fn["file"].endswith("copying.c") and fn["ret"] in NODE:
            for a in args:
                if isinstance(a, tuple) and a[0] == "p" and a[1] in self.shape.kids and self.shape.kids[a[1]][1] == NODE[fn["ret"]]:
                    c = copyof(a)
                    self.seq.append((a[1], self.table(st)))
                    # a deep copy of the assembler statements registers their operands, when the operand copier does so
                    if ASM_ARGS and self.shape.kids[a[1]][0].endswith("asm_stmt"):
                        for ob in sorted(self.shape.xargs, key=str):
                            self.register(st, P(ob), ("p", ("O", "new:arg:" + ob[1]), ()))
                    # a deep copy of a declaration registers itself
                    if NODE[fn["ret"]] == "Decl":
                        self.register(st, a, c)
                    tag = {"Expr": "expr_kind", "Ast": "ast_kind", "Decl": "decl_kind", "TypeInfo": "kind"}[NODE[fn["ret"]]]
                    v = st.mem[a[1]].get((tag,))
                    st.setcell(c[1], (tag,), v)
                    return [(st, c)]
            if self.stack and any(f[0]["ret"] in NODE for f in self.stack) and not any(self.ours(a) for a in args[1:]):
                if args and args[-1] == 0:
                    return [(st, 0)]
                return [(st, term("copy", tuple(args[1:])))]
        return super().call_named(name, args, st, e)


def m_ptr(I, args, st, e):
    a = args[0]
    if isinstance(a, tuple) and a[0] == "t" and a[1] == "id":
        return a[2][0]
    return term("ptr", (a,))


def m_ptrzero(I, args, st, e):
    return 0 if args[0] == 0 else m_ptr(I, args, st, e)


def m_id(I, args, st, e):
    t = term("id", (args[0],))
    st.cons[t] = ("ni", frozenset((0,)))
    return t


def m_fresh(I, args, st, e):
    I.n += 1
    b = ("O", "new:%d" % I.n)
    st.mem[b] = {("~",): 0}
    return P(b)


def m_memcpy(I, args, st, e):
    d, s = I.deref(args[0], st), I.deref(args[1], st)
    I.store(d, I.load_struct(s, st), st, e)
    return args[0]


def m_expand(I, args, st, e):
    v = args[0]
    if v == 0:
        I.n += 1
        b = ("V", "new:%d" % I.n)
        st.mem[b] = {("$size",): 1}
        return P(b, (0,))
    if not isvec(v):
        return TOP
    d = st.mem[v[1]]
    if v[1][1] and not str(v[1][1]).startswith("new:"):
        # growing the original's list
        st.must = st.must | {("grows", v[1])}
    st.setcell(v[1], ("$size",), d[("$size",)] + 1)
    return v


def m_vecsize(I, args, st, e):
    v = args[0]
    if v == 0:
        return 0
    if isvec(v):
        return st.mem[v[1]].get(("$size",), TOP)
    return TOP


def m_stop(I, args, st, e):
    return None


def run_case(F, R, nodetype, kind, vi, assume, fields, entry, table_has, rule, template=1, extra="", chain=False):
    sh = Shape(F, nodetype, kind, assume + extra, fields)
    if nodetype == "Expr" and ("resolve_status",) not in sh.st.mem[sh.root]:
        sh.set(sh.root, "resolve_status", F.enumconst["RESOLVE_NOT_DONE"])
    if nodetype == "TypeInfo":
        sh.set(sh.root, "resolve_status", F.enumconst["RESOLVE_NOT_DONE"])
    if nodetype == "Decl":
        for f, v in (("resolve_status", "RESOLVE_NOT_DONE"),):
            if (f,) not in sh.st.mem[sh.root]:
                sh.set(sh.root, f, F.enumconst[v])
        t = sh.sub("type")
        sh.set(sh.root, "type", P(t))
        sh.set(t, "decl", P(sh.root))
        sh.set(t, "canonical", P(t))
        if ("resolved_attributes",) not in sh.st.mem[sh.root]:
            sh.set(sh.root, "resolved_attributes", 0)
            sh.child(sh.root, "attributes", "G*")
    if nodetype == "Ast":
        sh.set(sh.root, "next", 0)
        if kind in shapes.LABELLED:
            sh.child(sh.root, "flow.label", "d")
            lab = ("O", "kid:flow.label")
            sh.set(lab, "decl_kind", F.enumconst["DECL_LABEL"])
        if chain:
            b = sh.sub("next")
            sh.set(b, "ast_kind", F.enumconst["AST_EXPR_STMT"])
            sh.set(b, "next", 0)
            sh.child(b, "expr_stmt", "E")
            sh.set(sh.root, "next", sh.ident(P(b)))
            sh.expect.append((sh.root, ("next",), "s", b))
    if "$resolved" in sh.flags or "$unresolved" in sh.flags:
        flag = resolved_flag(F)
        if flag is None:
            if "$resolved" in sh.flags:
                R.ob(rule, "%s resolved" % kind, False, "", "no stored mark tells a resolved from an unresolved jump, so the copier cannot know which payload is in use")
                return
        else:
            sh.set(sh.root, "nextcase_stmt." + flag, 1 if "$resolved" in sh.flags else 0)
            if "$unresolved" in sh.flags:
                sh.set(sh.root, "nextcase_stmt.defer_id", 0)
    I = Copier(F, sh)
    # registered copies from the enclosing code
    i = 0
    st = sh.st
    st.setcell(CS, ("copy_in_use",), 0)
    st.setcell(CS, ("is_template",), template)
    st.setcell(CS, ("single_static",), 0)
    redirect = {}
    refs = [x for x in sh.expect if x[2][0] == "r"]
    if table_has:
        for base, pt, cls, p in refs:
            nw = ("p", ("O", "redirected:" + p[1][1]), ())
            redirect[p] = nw
            st.setcell(CS, ("fixups", i, "original"), p)
            st.setcell(CS, ("fixups", i, "new_ptr"), nw)
            i += 1
    st.setcell(CS, ("current_fixup",), ("p", CS, ("fixups", i)))
    before = {b: dict(st.mem.get(b, {})) for b in sh.parts}
    inst = "%s%s%s%s" % (kind, "#%d" % vi if vi else "", " in copied scope" if table_has else "", " chain" if chain else "")
    where = ""
    try:
        VECBASES.add(CS)
        outs = inner_run(I, F, nodetype, entry, P(sh.root), st, i)
    finally:
        pass
    R.analysed |= I.analysed
    fn = F.byname[entry][0]
    where = "%s (copy of %s)" % (fn["file"], kind)
    if not outs:
        R.ob(rule, inst, False, where, "copying this node always stops in an internal error")
        return
    for s, v in outs:
        if not (isinstance(v, tuple) and v[0] == "p"):
            R.ob(rule, inst, False, where, "the copy is not a known object: %r" % (v,))
            continue
        if v[1] == sh.root:
            R.ob(rule, inst, False, where, "the original itself is returned")
            continue
        m = {sh.root: v[1]}
        bad = []
        todo = list(sh.expect)
        progress = True
        while todo and progress:
            progress = False
            for x in list(todo):
                base, pt, cls, want = x
                if base not in m:
                    continue
                todo.remove(x)
                progress = True
                if nodetype == "Expr" and kind == "EXPR_ASM" and (("p", sh.root, ("expr_asm_arg",)), ("p", v[1], ("expr_asm_arg",))) in (I.table(s) or []):
                    ASM_ARGS.add(1)
                val = load(I, m[base], pt, s)
                why = match(I, s, cls, want, val, redirect, m, sh)
                if why:
                    bad.append("%s: %s" % (".".join(map(str, pt)), why))
        for b in sh.parts:
            now = s.mem.get(b, {})
            for k in set(now) | set(before[b]):
                if now.get(k) != before[b].get(k):
                    bad.append("the original's %s is changed" % ".".join(map(str, k)))
        tab = I.table(s)
        if nodetype == "Decl" and kind not in ("DECL_LABEL",):
            if (P(sh.root), v) not in (tab or []):
                bad.append("the copy is not registered, references to it in the copied code stay on the original")
            if kind in ("DECL_STRUCT", "DECL_UNION", "DECL_BITSTRUCT", "DECL_ENUM", "DECL_DISTINCT", "DECL_INTERFACE", "DECL_TYPEDEF", "DECL_FUNC"):
                t = load(I, v[1], ("type",), s)
                if t == P(("O", "sub:type")) or not (isinstance(t, tuple) and t[0] == "p"):
                    bad.append("the copy shares the type of the original")
                else:
                    if load(I, t[1], ("decl",), s) != v:
                        bad.append("the type of the copy does not belong to the copy")
                    if load(I, t[1], ("canonical",), s) != t:
                        bad.append("the type of the copy has the canonical type of the original")
        if nodetype == "Ast" and kind in shapes.TARGETS:
            for kb, tb in I.seq:
                if (P(sh.root), v) not in (tb or []):
                    bad.append("%s is copied before the copy of the statement is registered" % sh.kids[kb][0])
            if not I.seq and (P(sh.root), v) not in (tab or []):
                bad.append("the copy is not registered")
        if kind == "AST_SWITCH_STMT":
            cs = [b for b in sh.parts if str(b[1]).startswith("sub:switch_stmt.cases[")]
            if len(cs) < 2:
                raise AnalysisBroken("cases of a switch not modelled")
            for kb, tb in I.seq:
                if not sh.kids[kb][0].endswith("body"):
                    continue
                for b in cs:
                    if b in m and (P(b), P(m[b])) not in (tb or []):
                        bad.append("%s is copied before %s is registered, so a nextcase in it keeps jumping into the original" % (sh.kids[kb][0], b[1][4:]))
        if kind in shapes.LABELLED:
            lab = ("O", "copy:kid:flow.label")
            par = load(I, lab, ("label", "parent"), s)
            if par != term("id", (v,)):
                bad.append("the copied label does not name the copied statement")
            order = [k for k, _ in I.seq]
            lb = ("O", "kid:flow.label")
            if lb in order and order.index(lb) != 0:
                bad.append("the label is copied after parts that may refer to it")
        R.ob(rule, inst, not bad, where, "; ".join(bad[:4]))


def inner_run(I, F, nodetype, entry, src, st, nfix):
    """enter through the public entry, which starts with an empty table; the entries of the
    enclosing scope are put back when the copier proper is entered"""
    saved = {k: v for k, v in st.mem[CS].items()}
    fn = F.byname[entry][0]
    done = []

    orig = I.call_named

    def hook(name, args, s, e):
        f = I.resolve(name) if name else None
        if not done and f is not None and f["ret"] in NODE and any(a == src for a in args):
            done.append(1)
            for k, v in saved.items():
                if k[0] in ("fixups", "current_fixup", "is_template"):
                    s.setcell(CS, k, v)
        return orig(name, args, s, e)
    I.call_named = hook
    r = I.run(entry, [src], st)
    return [(x[0], x[1]) for x in r]


def load(I, base, pt, st):
    return I.load([(base, pt)], st)


def resolved_flag(F):
    """boolean field of the nextcase payload that is outside its union and stored by the analyser"""
    r = F.recs.get("AstNextcaseStmt")
    if not r:
        raise AnalysisBroken("nextcase payload not found")
    for n, ct, dt, bits, rec in r["fields"]:
        if "_Bool" in ct and n:
            return n
    return None


def match(I, st, cls, want, val, redirect, m, sh):
    if cls in ("E", "A", "D", "T"):
        if val == copyof(want):
            return None
        return "not copied" if val == want else "is %s, not a copy of the original's" % desc(val)
    if cls in ("e", "a", "d", "t"):
        if val == term("id", (copyof(want),)):
            return None
        return "not copied" if val == term("id", (want,)) else "is %s, not a copy of the original's" % desc(val)
    if cls in ("rD", "rd", "ra"):
        t = redirect.get(want, want)
        if cls != "rD":
            t = term("id", (t,))
        if val == t:
            return None
        return "still refers to the original of code that has been copied" if want in redirect else "no longer refers to what the original refers to (%s)" % desc(val)
    if cls == "s":
        if isinstance(val, tuple) and val[0] == "t" and val[1] == "id" and isinstance(val[2][0], tuple) and val[2][0][0] == "p" and val[2][0][1] not in sh.parts:
            m[want] = val[2][0][1]
            return None
        return "the following statement is not copied"
    if cls == "S":
        if isinstance(val, tuple) and val[0] == "p" and val[1] not in sh.parts and val[2] == ():
            m[want] = val[1]
            return None
        return "not copied"
    # lists
    if not isvec(val):
        return "is %s, not a list" % desc(val)
    if val[1] in sh.parts:
        return "the list is shared with the original"
    n = st.mem[val[1]].get(("$size",))
    if n != len(want):
        return "has %s elements instead of %d" % (n, len(want))
    for i, w in enumerate(want):
        x = I.load([(val[1], (i,))], st)
        if cls == "S*":
            if isinstance(x, tuple) and x[0] == "p" and x[1] not in sh.parts and x[2] == ():
                if x[1][1] != "new:arg:" + w[1]:
                    m[w] = x[1]
                continue
            return "element %d is not copied" % i
        if x != copyof(w):
            return "element %d is not copied" % i
    return None


def desc(v):
    return repr(v)[:80]


ENTRY = {"Expr": "copy_expr_single", "Ast": "copy_ast_single", "Decl": None, "TypeInfo": "copy_type_info_single"}


def c13(F, R):
    tables = (("Expr", "ExprKind", shapes.EXPR, "copy-expression", {"EXPR_LAST", "EXPR_POISONED", "EXPR_TYPECALL", "EXPR_CT_SUBSCRIPT", "EXPR_SUBSCRIPT_ASSIGN"}),
              ("Ast", "AstKind", shapes.AST, "copy-statement", {"AST_POISONED"}),
              ("Decl", "DeclKind", shapes.DECL, "copy-declaration", {"DECL_POISONED", "DECL_ERASED", "DECL_DECLARRAY", "DECL_GROUP", "DECL_LABEL"}),
              ("TypeInfo", "TypeInfoKind", shapes.TYPEINFO, "copy-type", {"TYPE_INFO_POISON"}))
    for nt, en, tab, rule, skip in tables:
        names = [n for n, _ in F.enums[en]["vals"]]
        for k in tab:
            if k not in names:
                raise AnalysisBroken("kind %s is gone" % k)
        R.count("kinds_without_description", len([n for n in names if n not in tab and n not in skip]))
        for k in names:
            if k not in tab:
                continue
            for vi, (assume, fields) in enumerate(tab[k]):
                entry = ENTRY[nt]
                if nt == "Decl":
                    entry = "copy_lambda_deep"
                run_case(F, R, nt, k, vi, assume, fields, entry, False, rule)
                if ":r" in fields or ":B" in fields:
                    run_case(F, R, nt, k, vi, assume, fields, entry, True, rule)
        if nt == "Ast":
            run_case(F, R, nt, "AST_EXPR_STMT", 0, "", "expr_stmt:E", "copy_ast_single", False, rule, chain=True)
            run_case(F, R, nt, "AST_DEFER_STMT", 0, "", "defer_stmt.body:a", "copy_ast_single", False, rule, chain=True)
    for k, cases in shapes.CONSTINIT.items():
        pass
