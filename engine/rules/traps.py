"""C06, C07: null, alignment and enum checks of safe builds; assertions and panics."""
from rules.util import *
from rules.ops import BE, isz
from rules.safety import leafmodel, emit, Rows, R as RV, contains, facts_show
from rules.dup import m_vecsize
from absint import term

VOID = {}


def vec(W, name, items):
    b = ("V", name)
    W.st.mem[b] = {("$size",): len(items)}
    for i, x in enumerate(items):
        W.st.setcell(b, (i,), x)
    return ("p", b, (0,))


def safe(W, on, **kw):
    W.build(feature__safe_mode=W.e("SAFETY_ON" if on else "SAFETY_OFF"), feature__trap_on_wrap=0, debug_info=0, **kw)


def notnull(atoms, v):
    for a in atoms:
        if a[0] == "icmp" and a[1] == "NE" and a[2] == v and isz(a[3]):
            return True
        if a[0] == "bool" and not a[2] and isinstance(a[1], tuple) and a[1][0] == "IsNull" and a[1][1] == v:
            return True
        if a[0] == "bool" and a[2] and isinstance(a[1], tuple) and a[1][0] == "IsNotNull" and a[1][1] == v:
            return True
    return False


def aligned(atoms, v, n):
    for a in atoms:
        if a[0] == "icmp" and (a[1] == "EQ" and isz(a[3]) or a[1] == "ULT" and a[3] == ("const", 1)):
            x = a[2]
            if isinstance(x, tuple) and x[0] in ("URem", "And") and isinstance(x[1], tuple) and x[1][0] == "PtrToInt" and x[1][1] == v and x[2] == ("const", n if x[0] == "URem" else n - 1):
                return True
    return False


def fclean(at):
    return [a for a in at if a[0] in ("icmp", "bool")]


def final_value(I, st):
    cell = lambda k: I.load([(BE[1], BE[2] + (k,))], st)
    return cell("kind"), N(cell("value")), cell("type")


def derefs(F, Rep):
    ec = F.enumconst
    for on in (True, False):
        for elem in ("TYPE_U8", "TYPE_I32", "TYPE_F64"):
            for leaf in ("val", "addr"):
                for use in ("read", "assign", "add-assign", "inc", "post-dec", "address"):
                    W = World(F).std()
                    T = W.t[elem]
                    pt = W.pointer(T, elem[5:].lower())
                    p = W.expr("p", pt, expr_kind=W.e("EXPR_IDENTIFIER"))
                    d = W.expr("d", T, expr_kind=W.e("EXPR_UNARY"), unary_expr__expr=p, unary_expr__operator=W.e("UNARYOP_DEREF"))
                    leaves = {p: (leaf, pt)}
                    top = d
                    if use in ("assign", "add-assign"):
                        rhs = W.expr("rhs", T, expr_kind=W.e("EXPR_IDENTIFIER"))
                        leaves[rhs] = ("val", T)
                        top = W.expr("top", T, expr_kind=W.e("EXPR_BINARY"), binary_expr__left=d, binary_expr__right=rhs, binary_expr__operator=W.e("BINARYOP_ASSIGN" if use == "assign" else "BINARYOP_ADD_ASSIGN"))
                    elif use in ("inc", "post-dec"):
                        top = W.expr("top", T, expr_kind=W.e("EXPR_POST_UNARY" if use == "post-dec" else "EXPR_UNARY"), unary_expr__expr=d, unary_expr__no_wrap=0,
                                     unary_expr__operator=W.e("UNARYOP_DEC" if use == "post-dec" else "UNARYOP_INC"))
                    elif use == "address":
                        top = W.expr("top", pt, expr_kind=W.e("EXPR_UNARY"), unary_expr__expr=d, unary_expr__operator=W.e("UNARYOP_ADDR"))
                    safe(W, on)
                    W.ctx(emitting_load_store_check=0)
                    rows = Rows({"LLVMBuildStore", "LLVMBuildLoad2"})
                    I, rs = emit(F, W, top, leaves, rows)
                    Rep.fn(*[a for a, _ in I.analysed])
                    inst = "%s *(%s*) pointer %s%s" % (use, elem[5:].lower(), {"val": "value", "addr": "variable"}[leaf], "" if on else " (unsafe)")
                    pv = RV(p) if leaf == "val" else None
                    Rep.ob("deref-value", inst, bool(rs), "llvm_emit_expr", "the dereference never completes")
                    spots = []
                    for st, _ in rs:
                        fl = I.load([(("O", "ctx"), ("emitting_load_store_check",))], st)
                        Rep.ob("deref-value", inst, fl == 0, "llvm_emit_expr", "later dereferences are no longer checked (the check in progress is never finished)")
                        if use in ("read", "address"):
                            k, v, _t = final_value(I, st)
                            if pv is None and isinstance(v, tuple) and v[0] == "Load2" and v[2] == ("addr", p):
                                pv = v
                            want = ec["BE_ADDRESS"] if use == "read" else ec["BE_VALUE"]
                            Rep.ob("deref-value", inst, v == pv and k == want, "llvm_emit_expr", "the result is %s instead of the pointed-to object" % sh(v))
                            spots.append((getpos(st), st.must, ("llvm_emit_expr", ())))
                    st_rows = [r for r in rows.rows if N(r[1][2]) != ("addr", p) or r[0] == "LLVMBuildStore"]
                    for name, a, pos, must, w in st_rows:
                        v = N(a[2])
                        if pv is None and isinstance(v, tuple) and v[0] == "Load2" and v[2] == ("addr", p):
                            pv = v
                        if contains(v, ("addr", p)) or contains(v, RV(p)):
                            Rep.ob("deref-value", inst, v == pv, w[0], "accesses memory at %s" % sh(v))
                            spots.append((pos, must, w))
                    if use not in ("read", "address"):
                        Rep.ob("deref-value", inst, any(r[0] == "LLVMBuildStore" and N(r[1][2]) == pv for r in rows.rows), "llvm_emit_expr", "nothing is stored through the pointer")
                    if on:
                        for pos, must, w in spots:
                            at = facts_at(must, pos)
                            Rep.ob("null-deref", inst, notnull(at, pv), w[0], "the pointer is used without a null check; facts: %s" % facts_show(at))
                            if elem != "TYPE_U8":
                                Rep.ob("unaligned-deref", inst, aligned(at, pv, 4 if elem == "TYPE_I32" else 8), w[0], "the pointer is used without an alignment check; facts: %s" % facts_show(at))


def proto(W, name, rtype, params, infos, ret="ABI_ARG_IGNORE", **kw):
    b = ("O", "proto:" + name)
    W.st.mem[b] = {}
    ri = ("O", "abi:ret:" + name)
    W.st.setcell(ri, ("kind",), W.e(ret))
    vals = dict(call_abi=0, raw_variadic=0, is_optional=0, ret_by_ref=0, is_resolved=1, vararg_index=len(params), rtype=rtype, param_types=vec(W, "params:" + name, params),
                varargs=0, ret_by_ref_type=0, abi_ret_type=rtype, ret_abi_info=("p", ri, ()), ret_by_ref_abi_info=0, abi_varargs=0)
    ab = []
    for i, inf in enumerate(infos):
        ib = ("O", "abi:%d:%s" % (i, name))
        for k, v in inf.items():
            W.st.setcell(ib, tuple(k.split("__")), v)
        ab.append(("p", ib, ()))
    vals["abi_args"] = vec(W, "abi:" + name, ab)
    vals.update(kw)
    for k, v in vals.items():
        W.st.setcell(b, (k,), v)
    return ("p", b, ())


def calls(F, Rep):
    for on in (True, False):
        for leaf in ("val", "addr"):
            W = World(F).std()
            void = W.type("void", "TYPE_VOID")
            W.canon("type_void", void)
            raw = W.type("fn()", "TYPE_FUNC_RAW")
            fp = W.type("fn()*", "TYPE_FUNC_PTR", pointer=raw)
            pr = proto(W, "f", void, [], [])
            W.st.setcell(("O", "T:fn()"), ("function", "prototype"), pr)
            f = W.expr("f", fp, expr_kind=W.e("EXPR_IDENTIFIER"))
            kw = {k: 0 for k in ("is_builtin", "is_func_ref", "attr_force_inline", "attr_force_noinline", "no_return", "is_dynamic_dispatch", "has_optional_arg", "is_optional_return", "va_is_splat", "arguments", "varargs", "function_contracts")}
            ex = W.expr("call", void, expr_kind=W.e("EXPR_CALL"), call_expr__function=f, **{"call_expr__" + k: v for k, v in kw.items()})
            safe(W, on)
            rows = Rows({"LLVMBuildCall2"})
            I, rs = emit(F, W, ex, {f: (leaf, fp)}, rows, {"type_get_resolved_prototype": lambda I, a, st, e: pr, "vec_size": m_vecsize})
            Rep.fn(*[a for a, _ in I.analysed])
            inst = "call through function pointer %s%s" % ({"val": "value", "addr": "variable"}[leaf], "" if on else " (unsafe)")
            cs = []
            for name, a, pos, must, w in rows.rows:
                v = N(a[2])
                if v == RV(f) or isinstance(v, tuple) and v[0] == "Load2" and v[2] == ("addr", f):
                    cs.append((v, pos, must, w))
            Rep.ob("null-call-value", inst, len(cs) > 0, "llvm_emit_expr", "the pointer is not called")
            if on:
                for v, pos, must, w in cs:
                    at = facts_at(must, pos)
                    Rep.ob("null-call", inst, notnull(at, v), w[0], "the call is not dominated by a null check of the pointer; facts: %s" % facts_show(at))


def dispatch(F, Rep):
    """dynamic calls: the method found at run time is called only if there is one"""
    for on in (True, False):
        W = World(F).std()
        void = W.type("void", "TYPE_VOID")
        W.canon("type_void", void)
        anyt = W.type("any", "TYPE_ANY")
        raw = W.type("fn(any)", "TYPE_FUNC_RAW")
        pr = proto(W, "f", void, [W.pointer(void, "void")], [dict(kind=W.e("ABI_ARG_DIRECT"))])
        fn = ("O", "D:method")
        W.st.setcell(fn, ("type",), raw)
        W.st.setcell(fn, ("decl_kind",), W.e("DECL_FUNC"))
        W.st.setcell(fn, ("func_decl", "interface_method"), 0)
        W.st.setcell(fn, ("func_decl", "attr_inline"), 0)
        W.st.setcell(fn, ("name",), ("s", "method"))
        recv = W.expr("recv", anyt, expr_kind=W.e("EXPR_IDENTIFIER"))
        kw = {k: 0 for k in ("is_builtin", "attr_force_inline", "attr_force_noinline", "no_return", "has_optional_arg", "is_optional_return", "va_is_splat", "varargs", "function_contracts")}
        kw.update(is_func_ref=1, is_dynamic_dispatch=1, func_ref=("p", fn, ()), arguments=vec(W, "args", [recv]))
        ex = W.expr("call", void, expr_kind=W.e("EXPR_CALL"), **{"call_expr__" + k: v for k, v in kw.items()})
        safe(W, on)
        rows = Rows({"LLVMBuildCall2"})
        found = ("t", "found method", ())
        I, rs = emit(F, W, ex, {recv: ("val", anyt)}, rows, {"type_get_resolved_prototype": lambda I, a, st, e: pr, "vec_size": m_vecsize, "llvm_emit_dynamic_search": lambda I, a, st, e: found})
        Rep.fn(*[a for a, _ in I.analysed])
        inst = "dynamic call%s" % ("" if on else " (unsafe)")
        n = 0
        for name, a, pos, must, w in rows.rows:
            v = N(a[2])
            if v == N(found):
                n += 1
                at = facts_at(must, pos)
                Rep.ob("dynamic-call", inst, notnull(at, v), w[0], "a method that was not found can be called; facts: %s" % facts_show(at))
        Rep.ob("dynamic-call", inst, n > 0, "llvm_emit_expr", "the method that was found is not called")


def evalatom(a, val, bits, signed):
    m = (1 << bits) - 1
    x, y = val & m, a[3][1] & m
    p = a[1]
    if p[0] == "S" or signed and False:
        x = x - (1 << bits) if x >> (bits - 1) else x
        y = y - (1 << bits) if y >> (bits - 1) else y
    return {"EQ": x == y, "NE": x != y, "GT": x > y, "GE": x >= y, "LT": x < y, "LE": x <= y}[p[1:] if p not in ("EQ", "NE") else p]


def enums(F, Rep):
    for on in (True, False):
        for ik in sorted(INTS):
            for n in (1, 3, 127, 128, 129, 200, 255, 256, 257, 40000):
                if not on and n not in (3, 257):
                    continue
                for store in ("TYPE_U8", "TYPE_I32") if n < 256 else ("TYPE_I32",):
                    W = World(F).std()
                    T = W.t[ik]
                    ti = ("O", "info")
                    W.st.setcell(ti, ("type",), W.t[store])
                    d = ("O", "D:enum")
                    W.st.setcell(d, ("enums", "type_info"), ("p", ti, ()))
                    vb = ("V", "values")
                    W.st.mem[vb] = {("$size",): n}
                    W.st.setcell(d, ("enums", "values"), ("p", vb, (0,)))
                    W.st.setcell(d, ("name",), ("s", "Enum"))
                    en = W.type("Enum", "TYPE_ENUM", decl=("p", d, ()))
                    i = W.expr("i", T, expr_kind=W.e("EXPR_IDENTIFIER"))
                    ex = W.expr("e", en, expr_kind=W.e("EXPR_ENUM_FROM_ORD"), inner_expr=i)
                    safe(W, on)
                    I, rs = emit(F, W, ex, {i: ("val", T)}, None, {"vec_size": m_vecsize})
                    Rep.fn(*[a for a, _ in I.analysed])
                    inst = "%s to enum of %d values stored as %s%s" % (ik[5:].lower(), n, store[5:].lower(), "" if on else " (unsafe)")
                    Rep.ob("enum-value", inst, bool(rs), "llvm_emit_expr", "the conversion never completes")
                    bits, sg = BITS[ik], ik in SIGNED
                    for st, _ in rs:
                        k, v, t = final_value(I, st)
                        Rep.ob("enum-value", inst, strip_conv(v) == RV(i) and (BITS[ik] < BITS[store]) <= (v[0] == "ZExt" or v[0] == "SExt" and sg) and (BITS[ik] > BITS[store]) <= (v[0] == "Trunc"), "llvm_emit_expr", "the value of the enum is %s" % sh(v))
                        if not on:
                            continue
                        at = [a for a in facts_at(st.must, getpos(st)) if a[0] == "icmp" and a[2] == RV(i) and isinstance(a[3], tuple) and a[3][0] == "const" and isinstance(a[3][1], int)]
                        hi = (1 << (bits - 1)) - 1 if sg else (1 << bits) - 1
                        lo = -(1 << (bits - 1)) if sg else 0
                        bad, wrong = [], []
                        for c in sorted({lo, lo + 1, -n - 1, -n, -1, 0, 1, n // 2, n - 2, n - 1, n, n + 1, 2 * n, 255, 256, hi - 1, hi, -256, 256 + n, 65536}):
                            if not lo <= c <= hi:
                                continue
                            ok = all(evalatom(a, c, bits, sg) for a in at)
                            if ok and not 0 <= c < n:
                                bad.append(c)
                            if not ok and 0 <= c < n:
                                wrong.append(c)
                        Rep.ob("enum-check", inst, not bad, "llvm_emit_expr", "the invalid ordinal %s gets through; facts: %s" % (bad[:3], facts_show(at)))
                        Rep.ob("enum-accept", inst, not wrong, "llvm_emit_expr", "the valid ordinal %s panics; facts: %s" % (wrong[:3], facts_show(at)))


def params(F, Rep):
    for on in (True, False):
        for name, kind in (("direct", "ABI_ARG_DIRECT"),):
            for written in (0, 1):
                for taken in (0, 1):
                    for nn in (1, 0):
                        W = World(F).std()
                        void = W.type("void", "TYPE_VOID")
                        W.canon("type_void", void)
                        pt = W.pointer(W.t["TYPE_I32"], "i32")
                        info = dict(kind=W.e(kind))
                        pr = proto(W, "f", void, [pt], [info])
                        prm = ("O", "D:param")
                        for k, v in dict(decl_kind=W.e("DECL_VAR"), type=pt, name=("s", "param"), alignment=8, var__kind=W.e("VARDECL_PARAM"), var__not_null=nn, var__is_written=written, var__is_addr=taken).items():
                            W.st.setcell(prm, tuple(k.split("__")), v)
                        fn, body = ("O", "D:fn"), ("O", "body")
                        stmt = ("O", "stmt")
                        W.st.setcell(stmt, ("ast_kind",), W.e("AST_EXPR_STMT"))
                        W.st.setcell(stmt, ("next",), 0)
                        eff = W.expr("effect", void, expr_kind=W.e("EXPR_IDENTIFIER"))
                        W.st.setcell(stmt, ("expr_stmt",), eff)
                        W.st.setcell(body, ("compound_stmt", "first_stmt"), ("p", stmt, ()))
                        W.st.setcell(body, ("ast_kind",), W.e("AST_COMPOUND_STMT"))
                        for k, v in dict(decl_kind=W.e("DECL_FUNC"), type=W.type("fn(int*)", "TYPE_FUNC_RAW"), name=("s", "f"), backend_ref=("y", "function"), func_decl__attr_dynamic=0, func_decl__attr_init=0,
                                         func_decl__attr_finalizer=0, func_decl__attr_naked=0, func_decl__body=("p", body, ()), func_decl__signature__params=vec(W, "sigparams", [("p", prm, ())])).items():
                            W.st.setcell(fn, tuple(k.split("__")), v)
                        W.st.cons[("y", "function")] = ("ni", frozenset((0,)))
                        safe(W, on)
                        rows = Rows({"LLVMBuildRetVoid", "$eval"})
                        m = {"type_get_resolved_prototype": lambda I, a, st, e: pr, "vec_size": m_vecsize, "llvm_emit_expr": leafmodel({eff: ("val", void)}),
                             "llvm_get_next_param": m_nextparam, "llvm_use_debug": lambda I, a, st, e: 0, "llvm_use_accurate_debug_info": lambda I, a, st, e: 0,
}
                        I = CG(F, on_emit=rows, models=m)
                        rs = runs(I, "llvm_emit_function_body", [CTX, ("p", fn, ())], W.st)
                        Rep.fn(*[a for a, _ in I.analysed])
                        inst = "%s %sparameter%s%s%s" % (name, "non-null " if nn else "", " assigned" if written else "", " address taken" if taken else "", "" if on else " (unsafe)")
                        Rep.ob("param-value", inst, bool(rows.rows), "llvm_emit_function_body", "the body is never entered")
                        for nm, a, pos, must, w in rows.rows:
                            at = facts_at(must, pos)
                            if on and nn:
                                Rep.ob("null-param", inst, notnull(at, PV), w[0], "the body runs without a null check of the parameter; facts: %s" % at)
                            elif not nn:
                                Rep.ob("null-param-optional", inst, not notnull(at, PV), w[0], "a pointer that may be null is rejected")


PV = ("incoming",)


def m_nextparam(I, args, st, e):
    return ("t", "incoming", ())


def c06(F, Rep):
    preds(F)
    derefs(F, Rep)
    calls(F, Rep)
    dispatch(F, Rep)
    enums(F, Rep)
    params(F, Rep)
    Rep.need("null-deref", 30)
    Rep.need("enum-check", 100)
    Rep.need("null-param", 4)


# ---------------------------------------------------------------- assertions (C07)

class CFG:
    """evaluates emitted boolean terms for one assignment of the leaves"""

    def __init__(self, must, leaves, env, start):
        self.must, self.leaves, self.env, self.start = must, leaves, env, start
        self.ways = {}

    def val(self, n):
        """0/1 or None"""
        if isinstance(n, tuple) and n:
            for ex, b in self.env.items():
                if n == ("boolval", ex):
                    return b
            k = n[0]
            if k == "const":
                return n[1] & 1 if isinstance(n[1], int) else None
            if k in ("ZExt", "Trunc", "SExt", "Freeze"):
                return self.val(n[1])
            if k == "Not":
                v = self.val(n[1])
                return None if v is None else 1 - v
            if k in ("And", "Or", "Xor"):
                a, b = self.val(n[1]), self.val(n[2])
                if a is None or b is None:
                    return None
                return {"And": a & b, "Or": a | b, "Xor": a ^ b}[k]
            if k == "icmp" and n[1] in ("EQ", "NE"):
                a, b = self.val(n[2]), self.val(n[3])
                if a is None or b is None:
                    return None
                return int((a == b) == (n[1] == "EQ"))
            if k == "Select":
                a = self.val(n[1])
                return None if a is None else self.val(n[2] if a else n[3])
            if k == "y" and isinstance(n[1], tuple) and n[1][0] == "phi":
                for ev in self.must:
                    if ev[0] == "phi" and N(ev[1]) == n:
                        came = [(self.seen.index(b), v) for v, b in ev[2] if b in self.seen]
                        if came:
                            return self.val(N(max(came, key=lambda x: x[0])[1]))
        return None

    def path(self):
        """blocks executed under the assignment, in order"""
        out, b = [], self.start
        while b is not None and b not in out:
            out.append(b)
            nxt = None
            for ev in self.must:
                if ev[0] == "br" and ev[1] == b:
                    nxt = ev[2]
                elif ev[0] == "condbr" and ev[1] == b:
                    self.seen = out
                    t = self.val(N(ev[2]))
                    if t is None:
                        return out, False
                    nxt = ev[3] if t else ev[4]
            b = nxt
            self.seen = out
        return out, True

def m_incoming2(I, args, st, e):
    from cgen import arr
    n = args[3]
    vals = arr(I, args[1], n, st) if isinstance(n, int) else [TOP]
    bbs = arr(I, args[2], n, st) if isinstance(n, int) else [TOP]
    st.must = st.must | {("phi", args[0], tuple(zip(vals, bbs)))}
    return 0


def assert_shapes(W, T):
    a = W.expr("a", T, expr_kind=W.e("EXPR_IDENTIFIER"))
    b = W.expr("b", T, expr_kind=W.e("EXPR_IDENTIFIER"))
    n = [0]

    def x(kind, **kw):
        n[0] += 1
        return W.expr("n%d" % n[0], T, expr_kind=W.e(kind), **kw)
    NOT = lambda p: x("EXPR_UNARY", unary_expr__expr=p, unary_expr__operator=W.e("UNARYOP_NOT"))
    BIN = lambda op: lambda p, q: x("EXPR_BINARY", binary_expr__left=p, binary_expr__right=q, binary_expr__operator=W.e(op))
    AND, OR = BIN("BINARYOP_AND"), BIN("BINARYOP_OR")
    L = {"a": (lambda: a, lambda p, q: p), "!a": (lambda: NOT(a), lambda p, q: not p), "a && b": (lambda: AND(a, b), lambda p, q: p and q), "a || b": (lambda: OR(a, b), lambda p, q: p or q),
         "!(a || b)": (lambda: NOT(OR(a, b)), lambda p, q: not (p or q)), "!(a && b)": (lambda: NOT(AND(a, b)), lambda p, q: not (p and q)), "a && !b": (lambda: AND(a, NOT(b)), lambda p, q: p and not q),
         "!(a || !b)": (lambda: NOT(OR(a, NOT(b))), lambda p, q: not (p or not q)), "!a || b": (lambda: OR(NOT(a), b), lambda p, q: (not p) or q)}
    return a, b, L


def asserts(F, Rep):
    from rules.safety import m_phi
    from cgen import rval
    shapes = list(assert_shapes(World(F).std(), 0)[2])
    for on in (True, False):
        for testing in (0, 1):
            for shape in shapes:
                W = World(F).std()
                T = W.t["TYPE_BOOL"]
                W.canon("type_bool", T)
                a, b, L = assert_shapes(W, T)
                cond = L[shape][0]()
                truth = L[shape][1]
                for msg in ("none", "text", "format") if shape == "a" else ("none",):
                    s = ("O", "assert:" + msg)
                    st0 = W.st
                    W.st.setcell(s, ("ast_kind",), W.e("AST_ASSERT_STMT"))
                    W.st.setcell(s, ("next",), 0)
                    W.st.setcell(s, ("assert_stmt", "expr"), cond)
                    m = W.expr("message", T, expr_kind=W.e("EXPR_CONST"), const_expr__bytes__ptr=("s", "text"))
                    arg = W.expr("arg", W.t["TYPE_I32"], expr_kind=W.e("EXPR_IDENTIFIER"))
                    W.st.setcell(s, ("assert_stmt", "message"), m if msg != "none" else 0)
                    W.st.setcell(s, ("assert_stmt", "args"), vec(W, "aargs", [arg]) if msg == "format" else 0)
                    W.build(testing=testing)
                    safe(W, on)
                    rows = Rows({"LLVMBuildCall2", "$panic", "$eval"})
                    leaves = {a: ("bool", T), b: ("bool", T), arg: ("val", W.t["TYPE_I32"])}
                    I = CG(F, on_emit=rows, models={"llvm_emit_expr": leafmodel(leaves), "vec_size": m_vecsize, "LLVMAddIncoming": m_incoming2, "LLVMBuildPhi": m_phi,
                                                    "expr_is_pure": lambda I, a_, st, e: 1})
                    I.max_rec = 6
                    rs = runs(I, "llvm_emit_stmt", [CTX, ("p", s, ())], W.st)
                    Rep.fn(*[x for x, _ in I.analysed])
                    inst = "assert(%s)%s%s%s" % (shape, {"none": "", "text": " with text", "format": " with format"}[msg], " safe" if on else " fast", " test" if testing else "")
                    Rep.ob("assert", inst, bool(rs), "llvm_emit_stmt", "the assertion never completes")
                    start = ("y", ("bb", "entry", ()))
                    for st, _ in rs:
                        end = getpos(st)
                        for p in (0, 1):
                            for q in (0, 1):
                                C = CFG(st.must, leaves, {a: p, b: q}, start)
                                path, sure = C.path()
                                t = bool(truth(p, q))
                                if on or testing:
                                    dead = any(("panic", x) in st.must for x in path)
                                    Rep.ob("assert-fails", inst, not sure or dead == (not t) and (end in path) == t, "llvm_emit_assert_stmt",
                                           "with a=%d and b=%d the assertion %s" % (p, q, "does not stop the program" if not t else "stops the program"))
                                    Rep.ob("assert-fails", inst, sure, "llvm_emit_assert_stmt", "the branch on the condition is not understood")
                                else:
                                    Rep.ob("assert-off", inst, end in path, "llvm_emit_assert_stmt", "a disabled assertion changes control flow")
                                    for ev in st.must:
                                        if ev[0] == "call" and ev[1] in path and intr_name(ev[2]) == "assume":
                                            v = C.val(N(ev[3][0]))
                                            Rep.ob("assume", inst, v is not None and (v == 1 or not t), "llvm_emit_assume", "%s is assumed although the assertion holds with a=%d and b=%d" % (sh(N(ev[3][0])), p, q))
                        # the next statement runs after the check, not instead of it
                        if on or testing:
                            for name, a_, pos, must, w in rows.rows:
                                if name == "LLVMBuildCall2" and intr_name(a_[2]) == "assume":
                                    Rep.ob("assert-off", inst, False, w[0], "a checked assertion is also assumed")


def panics_end(F, Rep):
    """the panic sequence itself"""
    for on in (True, False):
        for mode in ("PANIC_ON", "PANIC_OFF"):
            for have in (1, 0):
                for havef in (1, 0):
                    for fmt in (1, 0):
                        W = World(F).std()
                        void = W.type("void", "TYPE_VOID")
                        W.canon("type_void", void)
                        anyt = W.type("any", "TYPE_ANY")
                        W.canon("type_any", anyt)
                        W.canon("type_uint", W.t["TYPE_U32"])
                        s8 = W.slice(W.t["TYPE_U8"], "char")
                        d = dict(kind=W.e("ABI_ARG_DIRECT"))
                        pr = proto(W, "panic", void, [s8, s8, s8, W.t["TYPE_U32"]], [d] * 4)
                        prf = proto(W, "panicf", void, [s8, s8, s8, W.t["TYPE_U32"], W.slice(anyt, "any")], [d] * 5)
                        raw = W.type("fn panic", "TYPE_FUNC_RAW")
                        rawf = W.type("fn panicf", "TYPE_FUNC_RAW")
                        fp = W.type("fn panic*", "TYPE_FUNC_PTR", pointer=raw)
                        W.st.setcell(("O", "D:panic"), ("type",), fp)
                        W.st.setcell(("O", "D:panic"), ("decl_kind",), W.e("DECL_VAR"))
                        W.st.setcell(("O", "D:panicf"), ("type",), rawf)
                        W.ctx(panic_var=("p", ("O", "D:panic"), ()) if have else 0, panicf=("p", ("O", "D:panicf"), ()) if havef else 0, debug__builder=0)
                        W.build(feature__panic_level=W.e(mode))
                        safe(W, on)

                        def m_proto(I, args, st, e):
                            return prf if args[0] == rawf else pr
                        av = ("O", "vararg")
                        for k, v in dict(kind=W.e("BE_VALUE"), alignment=0, optional=0, type=anyt, value=("t", "anyvalue", ())).items():
                            W.st.setcell(av, (k,), v)
                        vb = ("V", "varargs")
                        W.st.mem[vb] = {("$size",): 1}
                        for k, v in dict(kind=W.e("BE_VALUE"), alignment=0, optional=0, type=anyt, value=("t", "anyvalue", ())).items():
                            W.st.setcell(vb, (0, k), v)

                        def m_setdecl(I, args, st, e):
                            I.store(I.deref(args[1], st), ("st", ((("alignment",), 8), (("kind",), W.e("BE_VALUE")), (("optional",), 0), (("type",), fp), (("value",), ("t", "panic function", (args[2],)))), 0), st)
                            return 0
                        rows = Rows({"LLVMBuildCall2", "LLVMBuildUnreachable"})
                        I = CG(F, on_emit=rows, models={"vec_size": m_vecsize, "type_get_resolved_prototype": m_proto, "llvm_value_set_decl": m_setdecl, "llvm_emit_panic": lambda I, a, s, e: NotImplemented,
                                                        "source_file_by_id": lambda I, a, s, e: ("p", ("O", "file"), ())})
                        I.opaque.discard("llvm_emit_panic")
                        W.st.setcell(("O", "loc"), ("file_id",), 0)
                        rs = runs(I, "llvm_emit_panic", [CTX, ("s", "message"), ("st", (), 0), ("s", "fmt") if fmt else 0, ("p", vb, (0,)) if fmt else 0], W.st)
                        Rep.fn(*[x for x, _ in I.analysed])
                        inst = "panic%s, panics %s%s%s, %s" % (" with format" if fmt else "", mode[6:].lower(), "" if have else ", no panic function", "" if havef else ", no panicf", "safe" if on else "fast")
                        Rep.ob("panic", inst, bool(rs), "llvm_emit_panic", "the panic never completes")
                        off = mode == "PANIC_OFF" or not have
                        for st, _ in rs:
                            cur = I.load([(("O", "ctx"), ("current_block",))], st)
                            pos = getpos(st)
                            Rep.ob("panic-ends", inst, ("unreachable", pos) in st.must and cur == 0, "llvm_emit_panic", "the panic does not end its block")
                            calls_ = [ev for ev in st.must if ev[0] == "call" and ev[1] == pos]
                            if off:
                                if on:
                                    Rep.ob("panic-trap", inst, any(intr_name(ev[2]) == "trap" for ev in calls_), "llvm_emit_panic", "a safe build without panics does not trap")
                            else:
                                f = [ev for ev in calls_ if intr_name(ev[2]) is None]
                                ok = len(f) == 1 and (contains(f[0][2], ("p", ("O", "D:panicf"), ())) if fmt and havef else contains(f[0][2], ("p", ("O", "D:panic"), ())))
                                Rep.ob("panic-call", inst, ok, "llvm_emit_panic", "the panic function is not called: %s" % [sh(N(ev[2])) for ev in calls_])


def unwraps(F, Rep):
    """x!! stops the program when x is empty, in every build"""
    for on in (True, False):
        W = World(F).std()
        T = W.t["TYPE_I32"]
        flt = W.type("fault", "TYPE_ANYFAULT", builtin__abi_alignment=8)
        W.canon("type_fault", flt)
        x = W.expr("x", T, expr_kind=W.e("EXPR_IDENTIFIER"))
        ex = W.expr("e", T, expr_kind=W.e("EXPR_FORCE_UNWRAP"), inner_expr=x)
        safe(W, on)
        W.ctx(catch__block=0, catch__fault=0)

        def m_leaf(I, args, st, e):
            if args[2] != x:
                return NotImplemented
            # evaluating an optional: the failing side jumps to the innermost handler
            blk = I.load([(("O", "ctx"), ("catch", "block"))], st)
            okb = ("y", ("bb", "has value", ()))
            st.cons[okb] = ("ni", frozenset((0,)))
            st.must = st.must | {("condbr", getpos(st), ("t", "rval", (("empty",), 0)), blk, okb), ("target", blk)}
            from cgen import mark, USED
            mark(st, USED, blk)
            mark(st, USED, okb)
            st.setcell(("G", "$pos"), (), okb)
            st.setcell(("O", "ctx"), ("current_block",), okb)
            I.store(I.deref(args[1], st), ("st", ((("alignment",), 0), (("kind",), I.F.enumconst["BE_VALUE"]), (("optional",), 0), (("type",), T), (("value",), ("t", "rval", (x, T)))), 0), st)
            return 0
        I = CG(F, models={"llvm_emit_expr": m_leaf, "vec_size": m_vecsize})
        rs = runs(I, "llvm_emit_expr", [CTX, BE, ex], W.st)
        Rep.fn(*[a for a, _ in I.analysed])
        inst = "force unwrap, %s" % ("safe" if on else "fast")
        Rep.ob("unwrap", inst, bool(rs), "llvm_emit_expr", "never completes")
        for st, _ in rs:
            t = [ev[1] for ev in st.must if ev[0] == "target"]
            at = guards(st.must, getpos(st))
            Rep.ob("unwrap", inst, len(t) == 1 and t[0] not in (0, TOP) and panics(st.must, t[0]), "llvm_emit_force_unwrap_expr", "an empty optional does not panic")
            Rep.ob("unwrap", inst, any(c == ("t", "rval", (("empty",), 0)) and not tr for c, tr, o in at), "llvm_emit_force_unwrap_expr", "execution continues with an empty optional")
            Rep.ob("unwrap", inst, I.load([(("O", "ctx"), ("catch", "block"))], st) == 0, "llvm_emit_force_unwrap_expr", "the handler stays installed after the expression")


def c07(F, Rep):
    preds(F)
    asserts(F, Rep)
    panics_end(F, Rep)
    unwraps(F, Rep)
    preconditions(F, Rep)
    purity(F, Rep)
    Rep.need("effects", 80)
    Rep.need("assert-fails", 60)
    Rep.need("assume", 10)
    Rep.need("panic-ends", 20)


PURE_CHILDREN = """EXPR_BINARY binary_expr.left,binary_expr.right operator=BINARYOP_ADD
EXPR_BINARY binary_expr.left,binary_expr.right operator=BINARYOP_AND
EXPR_BINARY binary_expr.left,binary_expr.right operator=BINARYOP_EQ
EXPR_UNARY unary_expr.expr operator=UNARYOP_NOT
EXPR_UNARY unary_expr.expr operator=UNARYOP_NEG
EXPR_UNARY unary_expr.expr operator=UNARYOP_DEREF
EXPR_TERNARY ternary_expr.cond,ternary_expr.then_expr,ternary_expr.else_expr
EXPR_SUBSCRIPT subscript_expr.expr,subscript_expr.index.expr
EXPR_SUBSCRIPT_ADDR subscript_expr.expr,subscript_expr.index.expr
EXPR_ACCESS_RESOLVED access_resolved_expr.parent
EXPR_BITACCESS access_resolved_expr.parent
EXPR_EXT_TRUNC ext_trunc_expr.inner
EXPR_INT_TO_BOOL int_to_bool_expr.inner
EXPR_INT_TO_FLOAT inner_expr
EXPR_FLOAT_TO_INT inner_expr
EXPR_INT_TO_PTR inner_expr
EXPR_PTR_TO_INT inner_expr
EXPR_RECAST inner_expr
EXPR_RVALUE inner_expr
EXPR_SLICE_LEN inner_expr
EXPR_ENUM_FROM_ORD inner_expr
EXPR_PTR_ACCESS inner_expr
EXPR_POINTER_OFFSET pointer_offset_expr.ptr,pointer_offset_expr.offset
EXPR_SWIZZLE swizzle_expr.parent
EXPR_BUILTIN_ACCESS builtin_access_expr.inner
EXPR_TWO two_expr.first,two_expr.last
EXPR_DEFAULT_ARG default_arg_expr.inner
EXPR_MAKE_ANY make_any_expr.inner,make_any_expr.typeid
EXPR_TYPEID_INFO typeid_info_expr.parent""".splitlines()
IMPURE = [("EXPR_CALL", None, None), ("EXPR_POST_UNARY", "unary_expr", "UNARYOP_INC"), ("EXPR_POST_UNARY", "unary_expr", "UNARYOP_DEC"), ("EXPR_UNARY", "unary_expr", "UNARYOP_INC"), ("EXPR_UNARY", "unary_expr", "UNARYOP_DEC"),
          ("EXPR_UNARY", "unary_expr", "UNARYOP_TADDR"), ("EXPR_BITASSIGN", None, None), ("EXPR_SUBSCRIPT_ASSIGN", None, None), ("EXPR_SLICE_ASSIGN", None, None), ("EXPR_SLICE_COPY", None, None), ("EXPR_RETHROW", None, None),
          ("EXPR_FORCE_UNWRAP", None, None), ("EXPR_MACRO_BLOCK", None, None), ("EXPR_MACRO_BODY_EXPANSION", None, None), ("EXPR_ASM", None, None), ("EXPR_DECL", None, None)]
ASSIGNS = ["BINARYOP_ASSIGN"] + ["BINARYOP_%s_ASSIGN" % x for x in ("ADD", "SUB", "MULT", "DIV", "MOD", "SHL", "SHR", "BIT_AND", "BIT_OR", "BIT_XOR")]


def purity(F, Rep):
    """a disabled assertion never runs code with effects: what is evaluated to be assumed has none"""
    from absint import Interp, State
    ec = F.enumconst
    bad = IMPURE + [("EXPR_BINARY", "binary_expr", a) for a in ASSIGNS]

    def judge(inst, build):
        st = State()
        leafs = [0]

        def leaf():
            leafs[0] += 1
            b = ("O", "leaf%d" % leafs[0])
            st.setcell(b, ("expr_kind",), ec["EXPR_IDENTIFIER"])
            return ("p", b, ())

        def impure(k, sub, op):
            b = ("O", "impure")
            st.setcell(b, ("expr_kind",), ec[k])
            if sub:
                st.setcell(b, (sub, "operator"), ec[op])
                for f in ("left", "right") if sub == "binary_expr" else ("expr",):
                    st.setcell(b, (sub, f), leaf())
            return ("p", b, ())
        root = build(st, leaf, impure)
        m = {}
        from cgen import m_exprptr, m_exprptrzero
        m.update(exprptr=m_exprptr, exprptrzero=m_exprptrzero, vec_size=m_vecsize)
        I = Interp(F, models=m)
        I.max_rec = 4
        outs = runs(I, "expr_is_pure", [root], st)
        Rep.fn(*[x for x, _ in I.analysed])
        vals = set()
        for _, v in outs:
            vals |= set(elems(v))
        Rep.ob("effects", inst, vals == {0}, "expr_is_pure", "an expression with effects counts as free of effects (%s)" % (sorted(map(str, vals))))
    for k, sub, op in bad:
        judge("%s%s" % (k, " " + op if op else ""), lambda st, leaf, impure: impure(k, sub, op))
    for row in PURE_CHILDREN:
        parts = row.split()
        kids = parts[1].split(",")
        for kid in kids:
            for k, sub, op in (("EXPR_CALL", None, None), ("EXPR_UNARY", "unary_expr", "UNARYOP_INC"), ("EXPR_BINARY", "binary_expr", "BINARYOP_ASSIGN")):
                def build(st, leaf, impure):
                    b = ("O", "outer")
                    st.setcell(b, ("expr_kind",), ec[parts[0]])
                    if len(parts) > 2:
                        st.setcell(b, (kids[0].split(".")[0], "operator"), ec[parts[2].split("=")[1]])
                    for c in kids:
                        st.setcell(b, tuple(c.split(".")), impure(k, sub, op) if c == kid else leaf())
                    return ("p", b, ())
                judge("%s%s with %s%s as %s" % (parts[0], " " + parts[2].split("=")[1] if len(parts) > 2 else "", k, " " + op if op else "", kid), build)


def preconditions(F, Rep):
    """the checks attached to a call run before it in safe builds"""
    for on in (True, False):
        W = World(F).std()
        void = W.type("void", "TYPE_VOID")
        W.canon("type_void", void)
        raw = W.type("fn()", "TYPE_FUNC_RAW")
        pr = proto(W, "f", void, [W.t["TYPE_I32"]], [dict(kind=W.e("ABI_ARG_DIRECT"))])
        fn = ("O", "D:f")
        for k, v in dict(type=raw, decl_kind=W.e("DECL_FUNC"), func_decl__attr_inline=0, name=("s", "f"), backend_ref=("y", "function")).items():
            W.st.setcell(fn, tuple(k.split("__")), v)
        a = W.expr("a", W.t["TYPE_I32"], expr_kind=W.e("EXPR_IDENTIFIER"))
        checks, nxt = [], 0
        for i in (2, 1):
            x = W.expr("check%d" % i, void, expr_kind=W.e("EXPR_IDENTIFIER"))
            s = ("O", "contract%d" % i)
            W.st.setcell(s, ("ast_kind",), W.e("AST_EXPR_STMT"))
            W.st.setcell(s, ("expr_stmt",), x)
            W.st.setcell(s, ("next",), nxt)
            nxt = ("p", s, ())
            checks.append(x)
        kw = {k: 0 for k in ("is_builtin", "attr_force_inline", "attr_force_noinline", "no_return", "is_dynamic_dispatch", "has_optional_arg", "is_optional_return", "va_is_splat", "varargs")}
        kw.update(is_func_ref=1, func_ref=("p", fn, ()), arguments=vec(W, "args", [a]), function_contracts=nxt)
        ex = W.expr("call", void, expr_kind=W.e("EXPR_CALL"), **{"call_expr__" + k: v for k, v in kw.items()})
        safe(W, on)
        rows = Rows({"LLVMBuildCall2"})
        leaves = {x: ("val", void) for x in checks}
        leaves[a] = ("val", W.t["TYPE_I32"])
        I, rs = emit(F, W, ex, leaves, rows, {"type_get_resolved_prototype": lambda I, a, st, e: pr, "vec_size": m_vecsize})
        Rep.fn(*[x for x, _ in I.analysed])
        inst = "call with preconditions%s" % ("" if on else " (unsafe)")
        cs = [r for r in rows.rows if contains(N(r[1][3][0]) if r[1][3] else 0, RV(a))]
        Rep.ob("precondition", inst, bool(cs), "llvm_emit_expr", "the function is not called with its argument")
        for name, args, pos, must, w in cs:
            done = {ev[1] for ev in must if ev[0] == "eval"}
            if on:
                Rep.ob("precondition", inst, set(checks) <= done, w[0], "the call happens before its preconditions are checked")
            Rep.ob("precondition", inst, a in done, w[0], "the argument is not evaluated")
