"""C14: what the program can reach is kept.

Every kind of run-time statement, expression, initializer and declaration is
put, one at a time, into the body of the main function of a synthetic program;
each of its children names a declaration of its own.  The liveness pass is
interpreted on that program from its public entry: the declarations named by
the children must all have been marked.  The roots are treated the same way.
The emission loop is interpreted per list and per mark: a declaration is
emitted exactly when it is marked or stripping is off."""
from absint import Interp, State, TOP, elems, isvec, term
from facts import AnalysisBroken
from rules import shapes
from rules.dup import Shape, P, m_ptr, m_ptrzero, m_id, m_vecsize, ALIAS_PATH

G = ("G", "compiler")
ENTRY = "sema_trace_liveness"

# child lists made of statements linked by their next field; every statement of the chain counts
CHAIN = {"compound_stmt.first_stmt", "ct_compound_stmt", "macro_block.first_stmt", "call_expr.function_contracts", "asm_stmt", "for_stmt.body", "if_stmt.then_body", "if_stmt.else_body"}
# a body is a single compound statement
SINGLE = {"for_stmt.body", "if_stmt.then_body", "if_stmt.else_body"}
# copies of defers whose originals are statements of the function as well, and references that are not uses
OPTIONAL = {"return_stmt.cleanup", "return_stmt.cleanup_fail", "contbreak_stmt.defers", "nextcase_stmt.defer_id", "rethrow_expr.cleanup",
            "contbreak_stmt.ast", "nextcase_stmt.case_switch_stmt", "macro_block.macro", "var.alias", "const_expr.member.decl", "const_expr.untyped_list",
            # operands are listed again as inputs and outputs of their block
            "expr_asm_arg.ident.ident_decl", "expr_asm_arg.base", "expr_asm_arg.idx", "expr_asm_arg.expr_id",
            # the decoded form of a typeid or initializer
            "designator_expr.path"}
# expressions that exist in analysed code
EXPRS = """ACCESS_RESOLVED BITACCESS ASM BINARY BITASSIGN BUILTIN_ACCESS CALL CATCH COND CONST DECL DEFAULT_ARG DESIGNATED_INITIALIZER_LIST INITIALIZER_LIST
EXPRESSION_LIST DESIGNATOR IDENTIFIER MACRO_BLOCK MACRO_BODY_EXPANSION MAKE_ANY MAKE_SLICE POINTER_OFFSET UNARY POST_UNARY RETHROW SLICE SLICE_ASSIGN SLICE_COPY
SUBSCRIPT SUBSCRIPT_ADDR SWIZZLE TERNARY TWO TRY TRY_UNWRAP_CHAIN TYPEID_INFO EXT_TRUNC INT_TO_BOOL VECTOR_TO_ARRAY SLICE_TO_VEC_ARRAY SCALAR_TO_VECTOR
FORCE_UNWRAP FLOAT_TO_INT INT_TO_FLOAT INT_TO_PTR PTR_TO_INT OPTIONAL ENUM_FROM_ORD ADDR_CONVERSION PTR_ACCESS RVALUE RECAST SLICE_LEN VECTOR_FROM_ARRAY DISCARD""".split()
ASTS = """ASM_BLOCK_STMT ASM_STMT ASSERT_STMT BLOCK_EXIT_STMT RETURN_STMT BREAK_STMT CONTINUE_STMT CASE_STMT DEFAULT_STMT COMPOUND_STMT CT_COMPOUND_STMT EXPR_STMT
DECLARE_STMT DECLS_STMT DEFER_STMT FOR_STMT IF_STMT NEXTCASE_STMT SWITCH_STMT""".split()


# union members whose first field is the same expression pointer
INNER = {(x, "inner") for x in ("rethrow_expr", "int_to_bool_expr", "ext_trunc_expr", "default_arg_expr", "make_any_expr")}


def same_cell(p):
    p = ALIAS_PATH(p)
    return ("inner_expr",) if p in INNER else p


class Prog(Shape):
    """children are leaves that each mention one declaration"""

    def __init__(self, F, nodetype, kind, assume, fields):
        self.beacons = []      # (declaration, what)
        self.path = None
        super().__init__(F, nodetype, kind, assume, "")
        if nodetype == "Expr":
            self.set(self.root, "type", self.int_type())
        if nodetype == "Ast":
            self.set(self.root, "next", 0)
        self.fill(self.root, "", fields)

    def int_type(self):
        b = ("O", "int")
        if b not in self.st.mem:
            self.st.mem[b] = {}
            self.set(b, "type_kind", self.F.enumconst["TYPE_I32"])
            self.set(b, "canonical", P(b))
        return P(b)

    def decl(self, name, kind="DECL_VAR"):
        b = ("O", "decl:" + name)
        self.st.mem[b] = {}
        self.set(b, "decl_kind", self.F.enumconst[kind])
        self.set(b, "is_live", 0)
        if kind == "DECL_VAR":
            self.set(b, "var.kind", self.F.enumconst["VARDECL_GLOBAL"])
            self.set(b, "var.init_expr", 0)
            self.set(b, "type", self.int_type())
        return b

    def ident_expr(self, name, what):
        e = ("O", "use:" + name)
        self.st.mem[e] = {}
        self.set(e, "expr_kind", self.F.enumconst["EXPR_IDENTIFIER"])
        self.set(e, "type", self.int_type())
        d = self.decl(name)
        self.set(e, "ident_expr", P(d))
        self.beacons.append((d, what))
        return e

    def use_stmt(self, name, what):
        a = ("O", "stmt:" + name)
        self.st.mem[a] = {}
        self.set(a, "ast_kind", self.F.enumconst["AST_EXPR_STMT"])
        self.set(a, "expr_stmt", P(self.ident_expr(name, what)))
        self.set(a, "next", 0)
        return a

    def child(self, base, path, cls):
        self.path = path
        if tuple(path.split(".")) in INNER:
            path = "inner_expr"
        super().child(base, path, cls)

    def node(self, name, nt, kind=None, assume=""):
        need = self.path not in OPTIONAL and not any(name.startswith("sub:" + x) for x in OPTIONAL)
        what = name if need else None
        if nt == "Expr":
            b = self.ident_expr(name, what)
        elif nt == "Ast":
            b = self.use_stmt(name, what)
            if self.path in CHAIN - SINGLE:
                b2 = self.use_stmt(name + " (following statement)", what and what + " (following statement)")
                self.set(b, "next", self.ident(P(b2)))
        elif nt == "Decl":
            b = self.decl(name)
            self.beacons.append((b, what))
        else:
            b = ("O", "tinfo:" + name)
            self.st.mem[b] = {}
            self.set(b, "resolve_status", self.F.enumconst["RESOLVE_DONE"])
            self.set(b, "type", self.user_type(name, what))
        self.kids[b] = (name, nt)
        return P(b)

    def user_type(self, name, what):
        t = ("O", "type:" + name)
        self.st.mem[t] = {}
        self.set(t, "type_kind", self.F.enumconst["TYPE_STRUCT"])
        self.set(t, "canonical", P(t))
        d = self.decl("type " + name, "DECL_STRUCT")
        self.set(d, "methods", 0)
        self.set(d, "type", P(t))
        self.set(t, "decl", P(d))
        self.beacons.append((d, what))
        return P(t)


class Live(Interp):
    def __init__(self, F):
        m = {}
        for nm in ("expr", "ast", "decl", "type_info"):
            m[nm + "ptr"] = m_ptr
            m[nm + "ptrzero"] = m_ptrzero
            m[nm + "id"] = m_id
        m.update({"vec_size": m_vecsize, "error_exit": lambda I, a, s, e: None})
        super().__init__(F, models=m)
        self.precise_goto = True
        self.max_rec = 8
        self.max_depth = 60

    def lval(self, e, st):
        r = super().lval(e, st)
        if e[0] == "mem" and r and r != TOP:
            r = [(b, same_cell(p)) for b, p in r]
        return r


def main_with(sh, stmt):
    """the program: main { stmt }"""
    body = ("O", "body")
    sh.st.mem[body] = {}
    sh.set(body, "ast_kind", sh.F.enumconst["AST_COMPOUND_STMT"])
    sh.set(body, "next", 0)
    sh.set(body, "compound_stmt.first_stmt", sh.ident(P(stmt)))
    f = ("O", "main")
    sh.st.mem[f] = {}
    sh.set(f, "decl_kind", sh.F.enumconst["DECL_FUNC"])
    sh.set(f, "is_live", 0)
    sh.set(f, "func_decl.signature.params", 0)
    sh.set(f, "func_decl.signature.rtype", 0)
    sh.set(f, "func_decl.body", sh.ident(P(body)))
    return f


def program(sh, st, main, asserts=1):
    st.setcell(G, ("context", "main"), P(main) if main else 0)
    st.setcell(G, ("context", "method_extensions"), 0)
    st.setcell(G, ("context", "module_list"), 0)
    st.setcell(G, ("build", "testing"), 0)
    st.setcell(G, ("build", "benchmarking"), 0)
    c = sh.F.enumconst
    if "SAFETY_ON" not in c or "SAFETY_OFF" not in c:
        raise AnalysisBroken("safety modes not found")
    st.setcell(G, ("build", "feature", "safe_mode"), c["SAFETY_ON"] if asserts else c["SAFETY_OFF"])


def judge(F, R, sh, rule, inst, main, asserts=1, setup=None):
    st = sh.st
    program(sh, st, main, asserts)
    if setup:
        setup(st)
    I = Live(F)
    outs = I.run(ENTRY, [], st)
    R.analysed |= I.analysed
    fn = F.byname[ENTRY][0]
    bad = []
    if not outs:
        bad.append("the pass always stops in an internal error")
    for o in outs:
        s = o[0]
        for d, what in sh.beacons:
            if what is None:
                continue
            v = s.mem.get(d, {}).get(("is_live",), TOP)
            if v != 1:
                bad.append("what is used in %s is not kept" % what)
    R.ob(rule, inst, not bad, fn["file"], "; ".join(sorted(set(bad))[:4]))


def stmt_with_expr(sh):
    a = ("O", "stmt")
    sh.st.mem[a] = {}
    sh.set(a, "ast_kind", sh.F.enumconst["AST_EXPR_STMT"])
    sh.set(a, "expr_stmt", P(sh.root))
    sh.set(a, "next", 0)
    return a


def trailing(sh, stmt):
    """a statement after the one under test, which must be reached too"""
    b = sh.use_stmt("statement after it", "the statement after it")
    sh.set(stmt, "next", sh.ident(P(b)))


JUMPS = {"AST_RETURN_STMT", "AST_BREAK_STMT", "AST_CONTINUE_STMT", "AST_NEXTCASE_STMT", "AST_BLOCK_EXIT_STMT", "AST_CASE_STMT", "AST_DEFAULT_STMT"}


def c14(F, R):
    if ENTRY not in F.byname:
        raise AnalysisBroken("liveness entry not found")
    for k in ["EXPR_" + x for x in EXPRS]:
        if k not in shapes.EXPR:
            raise AnalysisBroken("no shape for " + k)
        for vi, (assume, fields) in enumerate(shapes.EXPR[k]):
            if "RESOLVE_NOT_DONE" in assume or "try_expr.optional=0" in assume:
                continue
            if k == "EXPR_CONST" and ("UNTYPED" in assume or "MEMBER" in assume or "TYPEID" in assume):
                continue
            sh = Prog(F, "Expr", k, assume, fields)
            sh.set(sh.root, "resolve_status", F.enumconst["RESOLVE_DONE"])
            if k == "EXPR_CALL":
                sh.set(sh.root, "call_expr.is_builtin", 0)
            s = stmt_with_expr(sh)
            trailing(sh, s)
            judge(F, R, sh, "keep-expression", "%s%s" % (k, "#%d" % vi if vi else ""), main_with(sh, s))
    for k in ["AST_" + x for x in ASTS]:
        for vi, (assume, fields) in enumerate(shapes.AST[k]):
            if "$unresolved" in assume:
                continue
            assume = assume.replace("$resolved", "")
            for asserts in ((1,) if k != "AST_ASSERT_STMT" else (1, 0)):
                if not asserts:
                    continue
                sh = Prog(F, "Ast", k, assume, fields)
                if k not in JUMPS:
                    trailing(sh, sh.root)
                judge(F, R, sh, "keep-statement", "%s%s" % (k, "#%d" % vi if vi else ""), main_with(sh, sh.root) if k not in ("AST_CASE_STMT", "AST_DEFAULT_STMT") else in_switch(sh), asserts)
    for k, cases in shapes.CONSTINIT.items():
        for vi, (assume, fields) in enumerate(cases):
            init_case(F, R, k, fields)
    types(F, R)
    decls(F, R)
    roots(F, R)
    emission(F, R)


def in_switch(sh):
    w = ("O", "switch")
    sh.st.mem[w] = {}
    sh.set(w, "ast_kind", sh.F.enumconst["AST_SWITCH_STMT"])
    sh.set(w, "switch_stmt.cond", 0)
    sh.set(w, "switch_stmt.cases", sh.vec("the cases", [P(sh.root)]))
    sh.set(w, "next", 0)
    return main_with(sh, w)


def const_expr(sh, kind):
    sh.set(sh.root, "const_expr.const_kind", sh.F.enumconst[kind])


def init_case(F, R, k, fields):
    sh = Prog(F, "Expr", "EXPR_CONST", "", "")
    const_expr(sh, "CONST_INITIALIZER")
    b = ("O", "init")
    sh.st.mem[b] = {}
    sh.set(b, "kind", F.enumconst[k])
    n = 2
    t = ("O", "init type")
    sh.st.mem[t] = {}
    sh.set(t, "type_kind", F.enumconst["TYPE_STRUCT" if "STRUCT" in k else "TYPE_UNION" if "UNION" in k else "TYPE_ARRAY"])
    sh.set(t, "canonical", P(t))
    sh.set(t, "array.len", n)
    if "ARRAY" not in k:
        d = sh.decl("init type", "DECL_STRUCT")
        sh.set(t, "decl", P(d))
        sh.set(d, "strukt.members", sh.vec("members", [P(sh.decl("m%d" % i)) for i in range(n)]))
    sh.set(b, "type", P(t))
    sh.fill(b, "", fields)
    sh.set(sh.root, "const_expr.initializer", P(b))
    s = stmt_with_expr(sh)
    judge(F, R, sh, "keep-initializer", k, main_with(sh, s))


def types(F, R):
    """naming a type (a typeid at run time) keeps the dynamic methods of every type its description leads to"""
    for k, field in (("TYPE_POINTER", "pointer"), ("TYPE_SLICE", "array.base"), ("TYPE_ARRAY", "array.base"), ("TYPE_FLEXIBLE_ARRAY", "array.base"), ("TYPE_VECTOR", "array.base"), (None, None)):
        for user, dk in (("TYPE_STRUCT", "DECL_STRUCT"), ("TYPE_UNION", "DECL_UNION"), ("TYPE_BITSTRUCT", "DECL_BITSTRUCT"), ("TYPE_ENUM", "DECL_ENUM"), ("TYPE_DISTINCT", "DECL_DISTINCT")):
            sh = Prog(F, "Expr", "EXPR_CONST", "", "")
            const_expr(sh, "CONST_TYPEID")
            u = sh.user_type("T", "the type")
            d = ("O", "decl:type T")
            sh.set(d, "decl_kind", F.enumconst[dk])
            sh.set(u[1], "type_kind", F.enumconst[user])
            meths = []
            for i, dyn in enumerate((1, 1)):
                f = sh.decl("dynamic method %d" % i, "DECL_FUNC")
                sh.set(f, "func_decl.attr_dynamic", dyn)
                sh.set(f, "func_decl.signature.params", 0)
                sh.set(f, "func_decl.signature.rtype", 0)
                sh.set(f, "func_decl.body", sh.ident(P(sh.use_stmt("method body %d" % i, "the body of dynamic method %d" % i))))
                sh.beacons.append((f, "dynamic method %d" % i))
                meths.append(P(f))
            mac = sh.decl("macro", "DECL_MACRO")
            sh.set(d, "methods", sh.vec("methods", [P(mac)] + meths))
            ti = ("O", "tinfo")
            sh.st.mem[ti] = {}
            sh.set(ti, "type", sh.user_type("inner", "the inner type"))
            sh.set(d, "enums.type_info" if user == "TYPE_ENUM" else "distinct", P(ti))
            if user not in ("TYPE_ENUM", "TYPE_DISTINCT"):
                sh.beacons = [(b, w) for b, w in sh.beacons if w != "the inner type"]
            if user == "TYPE_ENUM":
                sh.set(d, "enums.values", 0)
            ty = u
            if k:
                t = ("O", "outer type")
                sh.st.mem[t] = {}
                sh.set(t, "type_kind", F.enumconst[k])
                sh.set(t, "canonical", P(t))
                sh.set(t, field, u)
                ty = P(t)
            sh.set(sh.root, "const_expr.typeid", ty)
            judge(F, R, sh, "keep-type", "%s of %s" % (k or "typeid", user), main_with(sh, stmt_with_expr(sh)))


def decls(F, R):
    """a declaration that is used keeps what it uses"""
    cases = [("DECL_VAR", "var.kind=VARDECL_" + v, "var.init_expr:E") for v in ("CONST", "GLOBAL", "LOCAL")]
    cases += [("DECL_ENUM_CONSTANT", "", "enum_constant.args:E*"), ("DECL_FUNC", "", "func_decl.body:a func_decl.signature.params:D* func_decl.signature.rtype:t"),
              ("DECL_FNTYPE", "", "fntype_decl.params:D* fntype_decl.rtype:t"), ("DECL_DISTINCT", "", "distinct:T"), ("DECL_ENUM", "", "enums.type_info:T enums.values:D*"),
              ("DECL_VAR", "var.kind=VARDECL_PARAM", "var.init_expr:E")]
    for kind, assume, fields in cases:
        sh = Prog(F, "Decl", kind, assume, fields)
        sh.set(sh.root, "is_live", 0)
        sh.set(sh.root, "type", sh.user_type("T", "the type") if kind == "DECL_VAR" else sh.int_type())
        if "PARAM" in assume:
            for d, w in list(sh.beacons):
                e = ("O", "use:var.init_expr")
                if e in sh.st.mem:
                    sh.set(e, "resolve_status", F.enumconst["RESOLVE_DONE"])
        if kind in ("DECL_DISTINCT", "DECL_ENUM"):
            sh.set(sh.root, "methods", 0)
        e = ("O", "user")
        sh.st.mem[e] = {}
        sh.set(e, "expr_kind", F.enumconst["EXPR_IDENTIFIER"])
        sh.set(e, "type", sh.int_type())
        sh.set(e, "ident_expr", P(sh.root))
        a = ("O", "stmt")
        sh.st.mem[a] = {}
        sh.set(a, "ast_kind", F.enumconst["AST_EXPR_STMT"])
        sh.set(a, "expr_stmt", P(e))
        sh.set(a, "next", 0)
        sh.beacons.append((sh.root, "the declaration itself"))
        judge(F, R, sh, "keep-declaration", "%s %s" % (kind, assume), main_with(sh, a))


def roots(F, R):
    flags = ["is_export", "no_strip", "func_decl.attr_finalizer", "func_decl.attr_init", "func_decl.attr_test", "func_decl.attr_benchmark", "func_decl.attr_dynamic"]
    table = [("functions", "unit", f) for f in flags[:6]] + [("methods", "unit", f) for f in flags[:2]] + [("vars", "unit", f) for f in flags[:2]]
    table += [(l, w, f) for l, w in (("local_method_extensions", "unit"), ("private_method_extensions", "module"), ("method_extensions", "program")) for f in ("is_export", "no_strip", "func_decl.attr_dynamic")]
    for lst, where, flag in table:
        sh = Prog(F, "Decl", "DECL_VAR" if lst == "vars" else "DECL_FUNC", "", "var.init_expr:E" if lst == "vars" else "func_decl.body:a")
        r = sh.root
        for f in flags + ["is_live"]:
            if lst == "vars" and f.startswith("func_decl"):
                continue
            sh.set(r, f, 1 if f == flag else 0)
        if lst == "vars":
            sh.set(r, "var.kind", F.enumconst["VARDECL_GLOBAL"])
            sh.set(r, "type", sh.int_type())
        else:
            sh.set(r, "func_decl.signature.params", 0)
            sh.set(r, "func_decl.signature.rtype", 0)
        sh.beacons.append((r, "the declaration itself"))
        # second of two, so that the whole list is walked
        o = sh.decl("other", "DECL_FUNC" if lst != "vars" else "DECL_VAR")
        for f in flags[:2] + (flags[2:] if lst != "vars" else []):
            sh.set(o, f, 0)
        v = sh.vec("list", [P(o), P(r)])

        def setup(st):
            st.setcell(G, ("build", "testing"), 1 if flag.endswith("attr_test") else 0)
            st.setcell(G, ("build", "benchmarking"), 1 if flag.endswith("attr_benchmark") else 0)
            unit, mod = ("O", "unit"), ("O", "module")
            st.mem[unit] = {}
            st.mem[mod] = {}
            for l in ("functions", "methods", "vars", "local_method_extensions", "lambdas", "types", "enums"):
                st.setcell(unit, (l,), v if l == lst else 0)
            st.setcell(mod, ("private_method_extensions",), v if where == "module" else 0)
            st.setcell(mod, ("units",), sh.vec("units", [P(unit)]))
            st.setcell(G, ("context", "module_list"), sh.vec("modules", [P(mod)]))
            if where == "program":
                st.setcell(G, ("context", lst), v)
        judge(F, R, sh, "roots", "%s %s" % (lst, flag), None, setup=setup)


# --- emission

EMITTERS = {"llvm_emit_function_decl": "declared", "llvm_emit_function_body": "body", "llvm_emit_global_variable_init": "defined", "llvm_emit_type_decls": "types", "llvm_get_ref": "declared"}


class Emit(Interp):
    def __init__(self, F):
        from rules.dup import m_expand, m_fresh
        m = {"vec_size": m_vecsize, "expand_": m_expand, "error_exit": lambda I, a, s, e: None}
        for k in ("cmalloc", "ccalloc", "malloc_arena", "calloc_arena", "malloc", "calloc", "vmem_alloc"):
            m[k] = m_fresh
        for k, ev in EMITTERS.items():
            if k not in F.byname:
                raise AnalysisBroken("emitter %s not found" % k)
            m[k] = self.emitter(ev)
        self.n = 0
        super().__init__(F, models=m, inline=lambda fn: fn["file"].endswith("llvm_codegen.c") or fn["file"].endswith(".h"))
        # everything else about a module is not of interest
        self.opaque = {f["name"] for fs in F.byname.values() for f in fs if f["file"].endswith("llvm_codegen.c") and (f["name"].startswith("gencontext_") or f["name"].startswith("llvm_emit_"))} - set(EMITTERS)
        self.precise_goto = True

    def emitter(self, ev):
        def f(I, args, st, e):
            d = args[-1]
            for x in elems(d):
                if isinstance(x, tuple) and x[0] == "p":
                    st.must = st.must | {(ev, x[1])}
            return TOP
        return f


def emission(F, R):
    entry = "llvm_gen"
    if entry not in F.byname:
        raise AnalysisBroken("module emission not found")
    ec = F.enumconst
    cases = [("functions", "DECL_FUNC", {"declared", "body"}), ("methods", "DECL_FUNC", {"declared", "body"}), ("lambdas", "DECL_FUNC", {"declared", "body"}), ("vars", "DECL_VAR", {"declared", "defined"}),
             ("types", "DECL_STRUCT", {"types"}), ("enums", "DECL_ENUM", {"types"})]
    for lst, kind, want in cases:
        for live in (0, 1):
            for strip in (0, 1):
                for variant in (("plain", 0, 0), ("test", 1, 0), ("test", 1, 1), ("benchmark", 1, 0), ("benchmark", 1, 1)) if lst == "functions" else (("plain", 0, 0),):
                    st = State()
                    sh = Shape.__new__(Shape)
                    sh.F, sh.st, sh.parts = F, st, set()
                    ds = []
                    for i in (0, 1):
                        d = ("O", "decl%d" % i)
                        st.mem[d] = {}
                        for k, v in (("decl_kind", ec[kind]), ("is_live", live if i else 0)):
                            sh.set(d, k, v)
                        if kind == "DECL_FUNC":
                            for k in ("func_decl.attr_test", "func_decl.attr_benchmark"):
                                sh.set(d, k, 1 if i and k.endswith(variant[0]) else 0)
                            b = ("O", "body%d" % i)
                            st.mem[b] = {}
                            sh.set(d, "func_decl.body", sh.ident(P(b)))
                        ds.append(P(d))
                    unit, mod, fil = ("O", "unit"), ("O", "module"), ("O", "file")
                    for o in (unit, mod, fil):
                        st.mem[o] = {}
                    for l, _, _ in cases:
                        sh.set(unit, l, sh.vec(l, ds) if l == lst else 0)
                    sh.set(unit, "main_function", 0)
                    sh.set(unit, "file", P(fil))
                    for l in ("tests", "benchmarks"):
                        sh.set(mod, l, 0)
                    sh.set(mod, "units", sh.vec("units", [P(unit)]))
                    on = variant[2]
                    for f, v in (("strip_unused", ec["STRIP_UNUSED_ON"] if strip else ec["STRIP_UNUSED_OFF"]), ("testing", on if variant[0] == "test" else 0),
                                 ("benchmarking", on if variant[0] == "benchmark" else 0), ("single_module", ec["SINGLE_MODULE_OFF"]), ("emit_stdlib", ec["EMIT_STDLIB_ON"]),
                                 ("test_output", 0), ("benchmark_output", 0)):
                        st.setcell(G, ("build", f), v)
                    I = Emit(F)
                    outs = I.run(entry, [sh.vec("modules", [P(mod)]), 1], st)
                    R.analysed |= I.analysed
                    inst = "%s live=%d stripping=%d%s" % (lst, live, strip, "" if variant[0] == "plain" else " %s built=%d" % (variant[0], on))
                    bad = []
                    keep = (live or not strip) and (variant[0] == "plain" or on)
                    if not outs:
                        bad.append("emission always stops in an internal error")
                    for o in outs:
                        for d, k in ((ds[0], not strip), (ds[1], keep)):
                            got = {ev for ev, b in o[0].must if b == d[1]}
                            if k and not want <= got:
                                bad.append("a declaration that must be emitted is not (%s missing)" % ", ".join(sorted(want - got)))
                            if not k and "body" in got:
                                bad.append("a declaration is emitted although it is unused or not part of this build")
                        if keep and ("body" in want or "defined" in want):
                            for v in elems(o[1]):
                                if v == 0 or isvec(v) and o[0].mem[v[1]].get(("$size",)) == 0:
                                    bad.append("the module is dropped although something in it is used")
                    R.ob("emit", inst, not bad, F.byname[entry][0]["file"], "; ".join(sorted(set(bad))[:3]))
