"""C11: implicit conversions.  The conversion entry of the analyser is
interpreted on every pair of types and on expression trees; whether it can
accept is compared with the language's rule for implicit conversions."""
from rules.util import *
from rules.casts import world, PTRS
from rules.dup import m_vecsize
from absint import term

SEMA = ("p", ("O", "semactx"), ())


def ident(W, name, type):
    """a run-time local of the given type"""
    p = W.expr(name, type, expr_kind=W.e("EXPR_IDENTIFIER"), resolve_status=W.e("RESOLVE_DONE"))
    d = ("O", "D:" + name)
    for k, v in (("decl_kind", "DECL_VAR"), ("resolve_status", "RESOLVE_DONE"), ("var.kind", "VARDECL_LOCAL")):
        W.st.setcell(d, tuple(k.split(".")), W.e(v))
    W.st.setcell(d, ("type",), type)
    W.st.setcell(p[1], ("ident_expr",), ("p", d, ()))
    return p


def accept(F, W, ex, to, binary=0, models=None, entry="cast_implicit"):
    """set of verdicts of the analyser on converting ex to the type implicitly"""
    m = {"sema_resolve_type_decl": lambda I, a, s, e: 1, "vec_size": m_vecsize}
    m.update(models or {})
    I = CG(F, models=m)
    I.max_rec = 6
    I.precise_goto = True
    out = set()
    for st, v in runs(I, entry, [SEMA, ex, to] + ([binary] if entry == "cast_implicit" else []), W.st):
        for x in elems(v) if v != TOP else [TOP]:
            out.add(x)
    return I, out


def width(k):
    return 64 if k in PTRS or k in ("TYPE_TYPEID", "TYPE_ANYFAULT") else BITS[k]


def may(f, t, vec=False):
    """the implicit conversions of run-time values the language has"""
    if f == t:
        return True
    if f in INTS and t in INTS:
        return width(t) >= width(f)
    if f in FLOATS and t in FLOATS:
        return width(t) >= width(f)
    if f in INTS and t in FLOATS:
        return True
    if f in PTRS and t in PTRS:
        return True
    if vec and f == "TYPE_BOOL" and t in INTS:
        # a lane of a truth vector is a mask of the integer's width
        return True
    return False


def pairs_scalar(F, Rep):
    kinds = list(SCALARS) + ["ptr", "voidptr", "TYPE_TYPEID", "TYPE_ANYFAULT"]
    nm = lambda k: k[5:].lower() if k.startswith("TYPE_") else {"ptr": "pointer", "voidptr": "void pointer"}[k]
    for vec in (False, True):
        for f in kinds:
            for t in kinds:
                W = world(F)
                A, B = W.t[f], W.t[t]
                if vec:
                    A, B = W.vector(A, nm(f)), W.vector(B, nm(t))
                leaf = ident(W, "leaf", A)
                I, out = quiet(F, W, leaf, B)
                Rep.fn(*[a for a, _ in I.analysed])
                inst = "%s%s to %s%s" % (nm(f), "[<4>]" if vec else "", nm(t), "[<4>]" if vec else "")
                if may(f, t, vec):
                    if not vec:
                        Rep.ob("widening-accepted", inst, out == {1}, "cast_implicit", "verdicts %s for a conversion without loss" % sorted(out, key=repr))
                else:
                    Rep.ob("lossy-rejected", inst, out == {0}, "cast_implicit", "verdicts %s for a conversion that may lose information" % sorted(out, key=repr))



QUIET = {"sema_print_inline", "sema_verror_range", "type_quoted_error_string", "type_to_error_string", "print_error_at", "sema_error_at", "print_error_type_at", "sema_note_prev_at", "int_to_str", "expr_const_to_error_string", "type_error_string_maybe_with_path"}

# operators whose result carries the value bits of these operands
BIN_BOTH = ["MULT", "SUB", "ADD", "DIV", "MOD", "BIT_OR", "BIT_XOR", "BIT_AND", "ELSE"]
BIN_LEFT = ["SHR", "SHL", "ASSIGN", "ADD_ASSIGN", "BIT_AND_ASSIGN", "BIT_OR_ASSIGN", "BIT_XOR_ASSIGN", "DIV_ASSIGN", "MOD_ASSIGN", "MULT_ASSIGN", "SHR_ASSIGN", "SHL_ASSIGN", "SUB_ASSIGN"]
ARITH = ["MULT", "SUB", "ADD", "BIT_OR", "BIT_XOR", "BIT_AND"]


def tree(W, kind, T, kids, **kw):
    """an expression of the kind and type; kids: {field: operand}"""
    cells = {k: v for k, v in kw.items()}
    cells.update(kids)
    return W.expr("e", T, expr_kind=W.e(kind), resolve_status=W.e("RESOLVE_DONE"), **cells)


def composites(isfloat):
    """(name, build(W, T, a, b), carriers) of expressions made of two operands of type T"""
    out = []
    for o in BIN_BOTH:
        if isfloat and o.startswith("BIT_"):
            continue
        out.append((o.lower(), lambda W, T, a, b, o=o: tree(W, "EXPR_BINARY", T, {}, binary_expr__operator=W.e("BINARYOP_" + o), binary_expr__left=a, binary_expr__right=b), "ab"))
    for o in BIN_LEFT:
        if isfloat and (o.startswith("BIT_") or o.startswith("SH")):
            continue
        out.append((o.lower(), lambda W, T, a, b, o=o: tree(W, "EXPR_BINARY", T, {}, binary_expr__operator=W.e("BINARYOP_" + o), binary_expr__left=a, binary_expr__right=b), "a"))
    out.append(("ternary", lambda W, T, a, b: tree(W, "EXPR_TERNARY", T, {}, ternary_expr__cond=ident(W, "cond", W.t["TYPE_BOOL"]), ternary_expr__then_expr=a, ternary_expr__else_expr=b), "ab"))
    for o in ["NEG", "PLUS", "INC", "DEC"] + ([] if isfloat else ["BITNEG"]):
        out.append(("unary " + o.lower(), lambda W, T, a, b, o=o: tree(W, "EXPR_UNARY", T, {}, unary_expr__operator=W.e("UNARYOP_" + o), unary_expr__expr=a), "a"))
    for o in ["INC", "DEC"]:
        out.append(("post " + o.lower(), lambda W, T, a, b, o=o: tree(W, "EXPR_POST_UNARY", T, {}, unary_expr__operator=W.e("UNARYOP_" + o), unary_expr__expr=a), "a"))
    out.append(("force unwrap", lambda W, T, a, b: tree(W, "EXPR_FORCE_UNWRAP", T, {}, inner_expr=a), "a"))
    out.append(("rethrow", lambda W, T, a, b: tree(W, "EXPR_RETHROW", T, {}, rethrow_expr__inner=a), "a"))
    out.append(("recast", lambda W, T, a, b: tree(W, "EXPR_RECAST", T, {}, inner_expr=a), "a"))
    out.append(("sequence of two", lambda W, T, a, b: tree(W, "EXPR_TWO", T, {}, two_expr__first=b, two_expr__last=a), "a"))
    return out


def quiet(F, W, ex, to, **kw):
    m = {q: (lambda I, a, s, e: TOP) for q in QUIET}
    m.update(kw.pop("models", {}))
    return accept(F, W, ex, to, models=m, **kw)


def narrowing(F, Rep):
    for wide, narrow in (("TYPE_I32", "TYPE_U8"), ("TYPE_U32", "TYPE_I16"), ("TYPE_I64", "TYPE_I32"), ("TYPE_F64", "TYPE_F32"), ("TYPE_F32", "TYPE_F16")):
        fl = wide in FLOATS
        for name, build, carriers in composites(fl):
            for ka in (wide, narrow):
                for kb in (wide, narrow):
                    if "b" not in carriers and kb != narrow:
                        continue
                    W = world(F)
                    a, b = ident(W, "a", W.t[ka]), ident(W, "b", W.t[kb])
                    # an operand of the narrow type comes widened
                    def widen(p, k):
                        if k == wide:
                            return p
                        return W.expr("w" + p[1][1], W.t[wide], expr_kind=W.e("EXPR_FLOAT_TO_FLOAT" if fl and "EXPR_FLOAT_TO_FLOAT" in F.enumconst else "EXPR_EXT_TRUNC"), resolve_status=W.e("RESOLVE_DONE"), ext_trunc_expr__inner=p, ext_trunc_expr__is_signed=int(k in SIGNED))
                    if fl and narrow in (ka, kb):
                        continue
                    ex = build(W, W.t[wide], widen(a, ka), widen(b, kb))
                    I, out = quiet(F, W, ex, W.t[narrow])
                    Rep.fn(*[x for x, _ in I.analysed])
                    inst = "%s of %s%s as %s to %s" % (name, ka[5:].lower(), " and " + kb[5:].lower() if "b" in carriers else "", wide[5:].lower(), narrow[5:].lower())
                    lossy = ka == wide or "b" in carriers and kb == wide
                    if lossy:
                        Rep.ob("narrowing-rejected", inst, out == {0}, "cast_implicit", "verdicts %s for a conversion that loses bits of an operand" % sorted(out, key=repr))
                    else:
                        Rep.ob("narrowing-of-narrow", inst, out == {1}, "cast_implicit", "verdicts %s although every operand has the narrower type" % sorted(out, key=repr))


def truncated(F, Rep):
    """an operand the program cut to the narrow type itself is narrow"""
    for op in ("ADD", "MULT", "BIT_AND"):
        W = world(F)
        cut = W.expr("cut", W.t["TYPE_U8"], expr_kind=W.e("EXPR_EXT_TRUNC"), resolve_status=W.e("RESOLVE_DONE"), ext_trunc_expr__inner=ident(W, "a", W.t["TYPE_I64"]))
        wid = W.expr("wide", W.t["TYPE_I32"], expr_kind=W.e("EXPR_EXT_TRUNC"), resolve_status=W.e("RESOLVE_DONE"), ext_trunc_expr__inner=cut)
        ex = tree(W, "EXPR_BINARY", W.t["TYPE_I32"], {}, binary_expr__operator=W.e("BINARYOP_" + op), binary_expr__left=wid, binary_expr__right=wid)
        I, out = quiet(F, W, ex, W.t["TYPE_U8"])
        Rep.ob("narrowing-of-narrow", "%s of values cut to u8, to u8" % op.lower(), out == {1}, "cast_implicit", "verdicts %s" % sorted(out, key=repr))


def explicit(F, Rep):
    """the casts the language has between scalars; the rest is rejected even when it is asked for"""
    kinds = list(SCALARS) + ["ptr", "voidptr", "TYPE_TYPEID", "TYPE_ANYFAULT"]
    num = INTS | FLOATS | {"TYPE_BOOL"}
    for f in kinds:
        for t in kinds:
            if f == t:
                continue
            addr = lambda k: k in PTRS or k in ("TYPE_TYPEID", "TYPE_ANYFAULT")
            if f in num and t in num:
                want = 1
            elif addr(f) and t == "TYPE_BOOL":
                want = 1
            elif addr(f) and t in INTS:
                want = int(BITS[t] >= 64)
            elif f in INTS and t in PTRS:
                want = int(BITS[f] >= 64)
            elif addr(f) and t in PTRS:
                want = 1
            else:
                want = 0
            W = world(F)
            I, out = quiet(F, W, ident(W, "leaf", W.t[f]), W.t[t], entry="cast_explicit")
            Rep.fn(*[x for x, _ in I.analysed])
            nm = lambda k: k[5:].lower() if k.startswith("TYPE_") else {"ptr": "pointer", "voidptr": "void pointer"}[k]
            Rep.ob("explicit-cast", "(%s)%s" % (nm(t), nm(f)), out == {want}, "cast_explicit", "verdicts %s, expected %d" % (sorted(out, key=repr), want))


OWN = ["EXPR_CALL", "EXPR_SUBSCRIPT", "EXPR_ACCESS_RESOLVED", "EXPR_BITACCESS", "EXPR_PTR_TO_INT", "EXPR_FLOAT_TO_INT", "EXPR_BOOL_TO_INT", "EXPR_MACRO_BLOCK", "EXPR_SWIZZLE", "EXPR_PTR_ACCESS", "EXPR_TYPEID_INFO", "EXPR_LAST_FAULT", "EXPR_RETVAL", "EXPR_DEFAULT_ARG", "EXPR_ASM", "EXPR_TRY", "EXPR_CATCH", "EXPR_BUILTIN", "EXPR_COND", "EXPR_DECL"]


def own_size(F, Rep):
    for kind in OWN:
        if kind not in F.enumconst:
            continue
        W = world(F)
        ex = tree(W, kind, W.t["TYPE_I32"], {})
        if kind == "EXPR_SUBSCRIPT":
            par = ident(W, "parent", W.slice(W.t["TYPE_I32"], "int"))
            ex = tree(W, kind, W.t["TYPE_I32"], {}, subscript_expr__expr=par, subscript_expr__index__expr=ident(W, "i", W.t["TYPE_I64"]))
        if kind in ("EXPR_ACCESS_RESOLVED", "EXPR_BITACCESS"):
            ex = tree(W, kind, W.t["TYPE_I32"], {}, access_resolved_expr__parent=ident(W, "parent", W.slice(W.t["TYPE_I32"], "int")))
        for to in ("TYPE_U8", "TYPE_I16"):
            I, out = quiet(F, W, ex, W.t[to])
            Rep.fn(*[x for x, _ in I.analysed])
            Rep.ob("narrowing-rejected", "%s of type int to %s" % (kind[5:].lower(), to[5:].lower()), out == {0}, "cast_implicit", "verdicts %s" % sorted(out, key=repr))
    W = world(F)
    ex = tree(W, "EXPR_UNARY", W.t["TYPE_I32"], {}, unary_expr__operator=W.e("UNARYOP_DEREF"), unary_expr__expr=ident(W, "p", W.t["ptr"]))
    I, out = quiet(F, W, ex, W.t["TYPE_U8"])
    Rep.ob("narrowing-rejected", "dereference of type int to u8", out == {0}, "cast_implicit", "verdicts %s" % sorted(out, key=repr))
    for t in ("TYPE_I8", "TYPE_U16", "TYPE_I32", "TYPE_U64"):
        W = world(F)
        ex = tree(W, "EXPR_SLICE_LEN", W.t["TYPE_U64"], {}, inner_expr=ident(W, "p", W.slice(W.t["TYPE_I32"], "int")))
        W.canon("type_cint", W.t["TYPE_I32"])
        I, out = quiet(F, W, ex, W.t[t])
        want = int(BITS[t] >= 32)
        Rep.ob("narrowing-rejected", "length to %s" % t[5:].lower(), out == {want}, "cast_implicit", "verdicts %s" % sorted(out, key=repr))


# expressions whose result could have been computed in the wider type instead
AMBIGUOUS_INT = set("mult sub add bit_or bit_xor bit_and shr shl".split()) | {"unary neg", "unary bitneg"}
AMBIGUOUS_FLOAT = {"mult", "sub", "add", "div", "unary neg"}
LOOKTHROUGH = {"ternary", "else", "rethrow", "force unwrap"}


def widening(F, Rep):
    """(a + b) is not silently computed narrow and then widened, however it is wrapped"""
    def sums(W, T):
        a, b = ident(W, "sa", T), ident(W, "sb", T)
        return W.expr("sum", T, expr_kind=W.e("EXPR_BINARY"), resolve_status=W.e("RESOLVE_DONE"), binary_expr__operator=W.e("BINARYOP_ADD"), binary_expr__left=a, binary_expr__right=b)
    for f, t in (("TYPE_I32", "TYPE_I64"), ("TYPE_U32", "TYPE_I128"), ("TYPE_F32", "TYPE_F64"), ("TYPE_I32", "TYPE_F64")):
        fl = t in FLOATS
        amb = AMBIGUOUS_INT if not fl else AMBIGUOUS_FLOAT
        for name, build, carriers in composites(f in FLOATS):
            if name in ("recast", "sequence of two"):
                continue
            W = world(F)
            ex = build(W, W.t[f], ident(W, "a", W.t[f]), ident(W, "b", W.t[f]))
            I, out = quiet(F, W, ex, W.t[t])
            Rep.fn(*[x for x, _ in I.analysed])
            inst = "%s of %s to %s" % (name, f[5:].lower(), t[5:].lower())
            if name in amb:
                Rep.ob("ambiguous-widening-rejected", inst, out == {0}, "cast_implicit", "verdicts %s although the operation could be done in either type" % sorted(out, key=repr))
            if name in LOOKTHROUGH:
                Rep.ob("widening-accepted", inst, out == {1}, "cast_implicit", "verdicts %s" % sorted(out, key=repr))
                for side in carriers:
                    W = world(F)
                    x, y = sums(W, W.t[f]), ident(W, "b", W.t[f])
                    ex = build(W, W.t[f], *((x, y) if side == "a" else (y, x)))
                    I, out = quiet(F, W, ex, W.t[t])
                    Rep.ob("ambiguous-widening-rejected", "%s with a sum as its %s operand, of %s to %s" % (name, "first" if side == "a" else "last", f[5:].lower(), t[5:].lower()), out == {0}, "cast_implicit", "verdicts %s although the sum could be done in either type" % sorted(out, key=repr))


def const_int(W, T, kind, v):
    m = (1 << 128) - 1
    return W.expr("const", T, expr_kind=W.e("EXPR_CONST"), resolve_status=W.e("RESOLVE_DONE"), const_expr__const_kind=W.e("CONST_INTEGER"), const_expr__ixx__type=W.e(kind), const_expr__ixx__i__low=v & ((1 << 64) - 1), const_expr__ixx__i__high=(v & m) >> 64)


def rng(k):
    b = BITS[k]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if k in SIGNED else (0, (1 << b) - 1)


def constants(F, Rep):
    for f in sorted(INTS):
        for t in sorted(INTS):
            if BITS[t] > BITS[f]:
                continue
            lo, hi = rng(f)
            tl, th = rng(t)
            vals = sorted(v for v in {lo, hi, tl, th, tl - 1, th + 1, 0, -1, 1, th // 2 + 1} if lo <= v <= hi)
            for v in vals:
                W = world(F)
                ex = const_int(W, W.t[f], f, v)
                I, out = quiet(F, W, ex, W.t[t])
                Rep.fn(*[x for x, _ in I.analysed])
                want = int(tl <= v <= th or f == t)
                Rep.ob("constant-fits", "constant %d of %s to %s" % (v, f[5:].lower(), t[5:].lower()), out == {want}, "cast_implicit", "verdicts %s, expected %d" % (sorted(out, key=repr), want))


def nominal(F, Rep):
    """conversions between types that are told apart by name or by what they point to"""
    from rules.casts import distinct

    def case(name, mk, want):
        W = world(F)
        A, B = mk(W)
        leaf = ident(W, "leaf", A)
        I, out = quiet(F, W, leaf, B)
        Rep.fn(*[x for x, _ in I.analysed])
        Rep.ob("nominal", name, out == {want} or want == 1 and out == {0, 1}, "cast_implicit", "verdicts %s, expected %d" % (sorted(out, key=repr), want))

    P = lambda W, k: W.pointer(W.t[k], k[5:].lower())
    S = lambda W, k: W.slice(W.t[k], k[5:].lower())
    A = lambda W, k, n=4: W.array(W.t[k], k[5:].lower(), n)
    V = lambda W, k, n=4: W.vector(W.t[k], k[5:].lower(), n)

    def anyt(W):
        p = W.type("any", "TYPE_ANY")
        W.canon("type_any", p)
        return p
    # pointers
    case("int* to double*", lambda W: (W.t["ptr"], W.t["ptr2"]), 0)
    case("int* to long*", lambda W: (W.t["ptr"], P(W, "TYPE_I64")), 0)
    case("int* to char*", lambda W: (W.t["ptr"], P(W, "TYPE_U8")), 0)
    case("int* to int**", lambda W: (W.t["ptr"], W.pointer(W.t["ptr"], "int*")), 0)
    case("int* to any", lambda W: (W.t["ptr"], anyt(W)), 1)
    case("any to int*", lambda W: (anyt(W), W.t["ptr"]), 0)
    case("any to void*", lambda W: (anyt(W), W.t["voidptr"]), 1)
    case("void* to any", lambda W: (W.t["voidptr"], anyt(W)), 0)
    # slices and arrays
    case("int[] to long[]", lambda W: (S(W, "TYPE_I32"), S(W, "TYPE_I64")), 0)
    case("int[] to float[]", lambda W: (S(W, "TYPE_I32"), S(W, "TYPE_F32")), 0)
    case("int[] to int*", lambda W: (S(W, "TYPE_I32"), W.t["ptr"]), 1)
    case("int[] to double*", lambda W: (S(W, "TYPE_I32"), W.t["ptr2"]), 0)
    case("int[] to void*", lambda W: (S(W, "TYPE_I32"), W.t["voidptr"]), 1)
    case("int* to int[]", lambda W: (W.t["ptr"], S(W, "TYPE_I32")), 0)
    case("int[4]* to int[]", lambda W: (W.pointer(A(W, "TYPE_I32"), "int[4]"), S(W, "TYPE_I32")), 1)
    case("int[4]* to long[]", lambda W: (W.pointer(A(W, "TYPE_I32"), "int[4]"), S(W, "TYPE_I64")), 0)
    case("int[4]* to int*", lambda W: (W.pointer(A(W, "TYPE_I32"), "int[4]"), W.t["ptr"]), 1)
    case("int[4]* to double*", lambda W: (W.pointer(A(W, "TYPE_I32"), "int[4]"), W.t["ptr2"]), 0)
    case("int[4] to int[3]", lambda W: (A(W, "TYPE_I32"), A(W, "TYPE_I32", 3)), 0)
    case("int[4] to int[5]", lambda W: (A(W, "TYPE_I32"), A(W, "TYPE_I32", 5)), 0)
    case("int[4] to long[4]", lambda W: (A(W, "TYPE_I32"), A(W, "TYPE_I64")), 0)
    case("int[4] to float[4]", lambda W: (A(W, "TYPE_I32"), A(W, "TYPE_F32")), 0)
    case("int[4] to int[<3>]", lambda W: (A(W, "TYPE_I32"), V(W, "TYPE_I32", 3)), 0)
    case("float[4] to int[<4>]", lambda W: (A(W, "TYPE_F32"), V(W, "TYPE_I32")), 0)
    case("long[4] to int[<4>]", lambda W: (A(W, "TYPE_I64"), V(W, "TYPE_I32")), 0)
    case("long[<4>] to int[4]", lambda W: (V(W, "TYPE_I64"), A(W, "TYPE_I32")), 0)
    case("int[<4>] to int[3]", lambda W: (V(W, "TYPE_I32"), A(W, "TYPE_I32", 3)), 0)
    case("int[<4>] to int[<3>]", lambda W: (V(W, "TYPE_I32"), V(W, "TYPE_I32", 3)), 0)
    case("int to int[4]", lambda W: (W.t["TYPE_I32"], A(W, "TYPE_I32")), 0)
    case("int[] to int", lambda W: (S(W, "TYPE_I32"), W.t["TYPE_I32"]), 0)
    case("int[] to bool", lambda W: (S(W, "TYPE_I32"), W.t["TYPE_BOOL"]), 0)
    # distinct types
    for k in ("TYPE_I32", "TYPE_F64", "ptr", "TYPE_BOOL"):
        def fresh(W, k=k, inline=0):
            d = distinct(W, W.t[k], "Own")
            W.st.setcell(("O", "D:Own"), ("is_substruct",), inline)
            return d
        nm = k[5:].lower() if k != "ptr" else "int*"
        case("distinct %s to %s" % (nm, nm), lambda W: (fresh(W), W.t[k]), 0)
        case("%s to distinct %s" % (nm, nm), lambda W: (W.t[k], fresh(W)), 0)
        case("inline distinct %s to %s" % (nm, nm), lambda W: (fresh(W, inline=1), W.t[k]), 1)
        case("%s to inline distinct %s" % (nm, nm), lambda W: (W.t[k], fresh(W, inline=1)), 0)

        def two(W):
            a = fresh(W)
            b = distinct(W, W.t[k], "Other")
            W.st.setcell(("O", "D:Other"), ("is_substruct",), 0)
            return a, b
        case("distinct %s to another distinct %s" % (nm, nm), two, 0)
    # enums

    def enum(W, inline=0):
        d = ("O", "D:En")
        W.st.setcell(d, ("decl_kind",), W.e("DECL_ENUM"))
        W.st.setcell(d, ("is_substruct",), inline)
        p = W.type("En", "TYPE_ENUM", decl=("p", d, ()))
        ti = ("O", "TI:En")
        W.st.setcell(ti, ("type",), W.t["TYPE_I32"])
        W.st.setcell(d, ("enums", "type_info"), ("p", ti, ()))
        return p
    for k in ("TYPE_I32", "TYPE_U8", "TYPE_I128", "TYPE_F64", "TYPE_BOOL", "ptr"):
        nm = k[5:].lower() if k != "ptr" else "int*"
        case("enum to %s" % nm, lambda W: (enum(W), W.t[k]), 0)
        case("%s to enum" % nm, lambda W: (W.t[k], enum(W)), 0)


def c11(F, Rep):
    preds(F)
    pairs_scalar(F, Rep)
    narrowing(F, Rep)
    truncated(F, Rep)
    explicit(F, Rep)
    own_size(F, Rep)
    widening(F, Rep)
    constants(F, Rep)
    nominal(F, Rep)
