"""C01-C03: what the code generator emits for operators, decided by abstract
interpretation of the lowering functions for every operator and operand type."""
from rules.util import *

ARITH = {"ADD": ("Add", "FAdd"), "SUB": ("Sub", "FSub"), "MULT": ("Mul", "FMul")}
BE = ("p", ("O", "be"), ())
SHORT = {"TYPE_BOOL": "bool"}


def kn(k, vec):
    return k[5:].lower() + ("[<4>]" if vec else "")


def mk(F, lk, vec, rk=None, rtype=None, **build):
    W = World(F).std()
    T, U = W.t[lk], W.t[rk or lk]
    if vec:
        lt = W.vector(T, lk[5:].lower())
        ut = lt if (rk or lk) == lk else W.vector(U, rk[5:].lower())
    else:
        lt, ut = T, U
    ident = W.e("EXPR_IDENTIFIER")
    lhs = W.expr("lhs", lt, expr_kind=ident)
    rhs = W.expr("rhs", ut, expr_kind=ident)
    ex = W.expr("e", rtype(W, lt) if rtype else lt, expr_kind=W.e("EXPR_BINARY"), binary_expr__left=lhs, binary_expr__right=rhs)
    b = dict(feature__safe_mode=W.e("SAFETY_OFF"), feature__trap_on_wrap=0, debug_info=0)
    b.update(build)
    W.build(**b)
    return W, lt, ut, lhs, rhs, ex


def result(I, st):
    return I.load([(("O", "be"), ("value",))], st)


def run_binary(F, op, lk, vec, rk=None, rtype=None, emits=None, **build):
    W, lt, ut, lhs, rhs, ex = mk(F, lk, vec, rk, rtype, **build)
    W.st.setcell(("O", "E:e"), ("binary_expr", "operator"), W.e(op))
    I = CG(F, on_emit=emits)
    rs = runs(I, "llvm_emit_binary", [CTX, BE, ex, 0, W.e(op)], W.st)
    vals = []
    for st, _ in rs:
        vals += flat(result(I, st))
    return I, vals, rs, (W, lt, ut, lhs, rhs)


def wrapped(n, want):
    """the value computed by an overflow-checked operation is element 0 of its result"""
    if isinstance(n, tuple) and n[0] in ("ExtractValue", "ExtractElement") and isinstance(n[1], tuple) and n[1][0] == "call:" + want:
        i = n[2]
        if i in (0, ("const", 0)):
            return n[1][1:]
    return None


def c01(F, R):
    preds(F)
    L = lambda W: ("rval", ("p", ("O", "E:lhs"), ()))
    l, r = ("rval", ("p", ("O", "E:lhs"), ())), ("rval", ("p", ("O", "E:rhs"), ()))
    where = "llvm_emit_binary"

    def check(rule, inst, I, vals, ok, want):
        R.fn(*[a for a, _ in I.analysed])
        if not vals:
            R.ob(rule, inst, False, where, "no value is produced")
        for v in vals:
            n = N(v)
            R.ob(rule, inst, v != TOP and ok(n), where, "emits %s, expected %s" % (sh(n), want))
    num = [k for k in SCALARS if k != "TYPE_BOOL"]
    for vec in (False, True):
        for k in num:
            isf, uns = k in FLOATS, k in UNSIGNED
            for op, (iop, fop) in ARITH.items():
                want = fop if isf else iop
                comm = op != "SUB"

                def ok(n):
                    return n[0] == want and (n[1:3] == (l, r) or comm and n[1:3] == (r, l))
                I, vals, _, _ = run_binary(F, "BINARYOP_" + op, k, vec)
                check("arith", "%s %s" % (op, kn(k, vec)), I, vals, ok, "%s(lhs, rhs)" % want)
                if not isf and not vec:
                    wi = ("u" if uns else "s") + {"ADD": "add", "SUB": "sub", "MULT": "mul"}[op] + "_overflow"

                    def ok2(n):
                        a = wrapped(n, wi)
                        return a is not None and (a[:2] == (l, r) or comm and a[:2] == (r, l))
                    rows = []

                    def em(I_, name, args, st, e):
                        if name == "$panic":
                            rows.append((args[0], st.must))
                    I, vals, rs, _ = run_binary(F, "BINARYOP_" + op, k, vec, emits=em, feature__trap_on_wrap=1)
                    check("arith-trap-on-wrap", "%s %s" % (op, kn(k, vec)), I, vals, ok2, "first part of %s(lhs, rhs)" % wi)
                    R.ob("arith-trap-on-wrap", "%s %s panics" % (op, kn(k, vec)), bool(rows), where, "wrapping is not trapped")
            for op, (s, u, f) in {"DIV": ("SDiv", "UDiv", "FDiv"), "MOD": ("SRem", "URem", "FRem")}.items():
                want = f if isf else u if uns else s
                for safe in ("SAFETY_OFF", "SAFETY_ON"):
                    W = World(F)
                    I, vals, _, _ = run_binary(F, "BINARYOP_" + op, k, vec, feature__safe_mode=W.e(safe))
                    check("divide", "%s %s" % (op, kn(k, vec)), I, vals, lambda n: n[0] == want and n[1:3] == (l, r), "%s(lhs, rhs)" % want)
            if isf:
                continue
            for op, want in {"SHL": ("Shl"), "SHR": ("LShr" if uns else "AShr")}.items():
                for rk in ([k] if vec else sorted(INTS)):
                    I, vals, _, _ = run_binary(F, "BINARYOP_" + op, k, vec, rk)
                    check("shift", "%s %s by %s" % (op, kn(k, vec), kn(rk, vec)), I, vals,
                          lambda n: n[0] == want and n[1] == l and strip_conv(n[2]) == r, "%s(lhs, rhs)" % want)
            for op, want in {"BIT_AND": "And", "BIT_OR": "Or", "BIT_XOR": "Xor"}.items():
                I, vals, _, _ = run_binary(F, "BINARYOP_" + op, k, vec)
                check("bitwise", "%s %s" % (op, kn(k, vec)), I, vals, lambda n: n[0] == want and n[1:3] in ((l, r), (r, l)), "%s(lhs, rhs)" % want)
    # comparisons
    bl = lambda W, lt: W.t["TYPE_BOOL"]
    CMP = {"EQ": ("EQ", "EQ", "OEQ"), "NE": ("NE", "NE", "ONE"), "LT": ("SLT", "ULT", "OLT"), "LE": ("SLE", "ULE", "OLE"), "GT": ("SGT", "UGT", "OGT"), "GE": ("SGE", "UGE", "OGE")}
    SW = {"OEQ": "OEQ", "ONE": "ONE", "UNE": "UNE", "OLT": "OGT", "OGT": "OLT", "OLE": "OGE", "OGE": "OLE"}
    SW.update(SWAPI)

    def cmpok(n, k, op):
        s, u, f = CMP[op]
        if k in FLOATS:
            w = ("ONE", "UNE") if op == "NE" else (f,)
            return n[0] == "fcmp" and (n[1] in w and n[2:4] == (l, r) or SW.get(n[1]) in w and n[2:4] == (r, l))
        w = u if k in UNSIGNED or k == "TYPE_BOOL" else s
        return n[0] == "icmp" and (n[1] == w and n[2:4] == (l, r) or SW.get(n[1]) == w and n[2:4] == (r, l))
    for k in SCALARS:
        for op in CMP:
            I, vals, _, _ = run_binary(F, "BINARYOP_" + op, k, False, rtype=bl)

            def okb(n):
                if k == "TYPE_BOOL":
                    n = debool(n)
                return cmpok(n, k, op)
            check("compare", "%s %s" % (op, kn(k, False)), I, vals, okb, "comparison %s of %s" % (op, k))
    for k in num:
        for op, red in {"EQ": "vector_reduce_and", "NE": "vector_reduce_or"}.items():
            I, vals, _, _ = run_binary(F, "BINARYOP_" + op, k, True, rtype=bl)
            check("compare-vector", "%s %s" % (op, kn(k, True)), I, vals, lambda n: n[0] == "call:" + red and cmpok(n[1], k, op), "%s of the lane comparison" % red)
        for op in CMP:
            I, vals, _, _ = run_binary(F, "BINARYOP_VEC_" + op, k, True)
            check("compare-lanes", "%s %s" % (op, kn(k, True)), I, vals, lambda n: cmpok(n, k, op), "lane comparison %s" % op)
    # mixed signedness: the comparison of the mathematical values
    for a, b in (("TYPE_I32", "TYPE_U32"), ("TYPE_I64", "TYPE_U64"), ("TYPE_I8", "TYPE_U8"), ("TYPE_I16", "TYPE_U16"), ("TYPE_I128", "TYPE_U128")):
        for op in CMP:
            I, vals, _, _ = run_binary(F, "BINARYOP_" + op, a, False, b, rtype=bl)
            check("compare-mixed", "%s %s,%s" % (op, kn(a, 0), kn(b, 0)), I, vals, lambda n: mixed_ok(n, op, l, r, True), "mathematical %s" % op)
            I, vals, _, _ = run_binary(F, "BINARYOP_" + op, b, False, a, rtype=bl)
            check("compare-mixed", "%s %s,%s" % (op, kn(b, 0), kn(a, 0)), I, vals, lambda n: mixed_ok(n, op, l, r, False), "mathematical %s" % op)
    pointers(F, R, l, r)
    unary(F, R)
    incdec(F, R)
    order(F, R)
    compound(F, R)
    R.need("arith", 90)
    R.need("divide", 60)
    R.need("shift", 100)
    R.need("bitwise", 60)
    R.need("compare", 90)
    R.need("compare-lanes", 80)
    R.need("compare-mixed", 60)


def debool(n):
    """bools are compared as i8 or i1"""
    if isinstance(n, tuple) and n[0] == "icmp":
        f = lambda x: strip_conv(x)
        return (n[0], n[1], f(n[2]), f(n[3]))
    return n


def mixed_ok(n, op, l, r, lsigned):
    """evaluate the emitted formula over the finite order abstraction of the two bit
    patterns (top bit of each, order within equal top bits)"""
    for lt in (0, 1):
        for rt in (0, 1):
            for c in ((-1, 0, 1) if lt == rt else (None,)):
                u = c if c is not None else (-1 if lt < rt else 1)      # unsigned order of the patterns
                s = c if c is not None else (1 if lt < rt else -1)      # signed order of the patterns
                # mathematical order
                if lsigned:
                    m = -1 if lt or (rt and not lt) else u
                    if lt:
                        m = -1
                else:
                    m = 1 if rt else (1 if lt else u)
                got = formula(n, l, r, lt, rt, u, s)
                want = {"EQ": m == 0, "NE": m != 0, "LT": m < 0, "LE": m <= 0, "GT": m > 0, "GE": m >= 0}[op]
                if got is None or got != want:
                    return False
    return True


def formula(n, l, r, lt, rt, u, s):
    if not isinstance(n, tuple):
        return None
    if n[0] == "And":
        a, b = formula(n[1], l, r, lt, rt, u, s), formula(n[2], l, r, lt, rt, u, s)
        return False if a is False or b is False else None if a is None or b is None else True
    if n[0] == "Or":
        a, b = formula(n[1], l, r, lt, rt, u, s), formula(n[2], l, r, lt, rt, u, s)
        return True if a is True or b is True else None if a is None or b is None else False
    if n[0] == "Not":
        a = formula(n[1], l, r, lt, rt, u, s)
        return None if a is None else not a
    if n[0] == "Select":
        c = formula(n[1], l, r, lt, rt, u, s)
        return None if c is None else formula(n[2] if c else n[3], l, r, lt, rt, u, s)
    if n[0] == "const":
        return bool(n[1])
    if n[0] == "icmp":
        p, a, b = n[1], n[2], n[3]
        if a == ("const", 0):
            a, b, p = b, a, SWAPI.get(p)
        if b == ("const", 0):
            top = lt if a == l else rt if a == r else None
            if top is None:
                return None
            return {"SLT": bool(top), "SGE": not top, "SGT": None if not top else False, "SLE": None if not top else True}.get(p)
        if (a, b) == (r, l):
            p = SWAPI.get(p)
        elif (a, b) != (l, r):
            return None
        return {"EQ": u == 0, "NE": u != 0, "ULT": u < 0, "ULE": u <= 0, "UGT": u > 0, "UGE": u >= 0, "SLT": s < 0, "SLE": s <= 0, "SGT": s > 0, "SGE": s >= 0}.get(p)
    return None


def pointers(F, R, l, r):
    where = "llvm_emit_binary"
    for op in ("ADD", "SUB", "DIFF", "EQ", "NE", "LT", "LE", "GT", "GE"):
        W = World(F).std()
        pt = W.pointer(W.t["TYPE_I32"], "int")
        ident = W.e("EXPR_IDENTIFIER")
        lhs = W.expr("lhs", pt, expr_kind=ident)
        rhs = W.expr("rhs", W.t["TYPE_I64"] if op in ("ADD", "SUB") else pt, expr_kind=ident)
        ex = W.expr("e", pt if op in ("ADD", "SUB") else W.t["TYPE_I64"] if op == "DIFF" else W.t["TYPE_BOOL"], binary_expr__left=lhs, binary_expr__right=rhs)
        W.build(feature__safe_mode=W.e("SAFETY_OFF"), feature__trap_on_wrap=0)
        I = CG(F)
        o = W.e("BINARYOP_" + ("SUB" if op == "DIFF" else op))
        for st, _ in runs(I, "llvm_emit_binary", [CTX, BE, ex, 0, o], W.st):
            for v in flat(result(I, st)):
                n = N(v)
                s = sh(n)
                if op == "ADD":
                    ok = gep_of(n, l, r)
                elif op == "SUB":
                    ok = gep_of(n, l, ("Neg", r))
                elif op == "DIFF":
                    ok = n[0] in ("ExactSDiv", "SDiv") and n[1][0] == "Sub" and n[1][1][:2] == ("PtrToInt", l) and n[1][2][:2] == ("PtrToInt", r) and n[2] in (("const", 4),) or n[0] == "ExactSDiv" and n[1][0] == "Sub" and n[1][1][:2] == ("PtrToInt", l) and n[1][2][:2] == ("PtrToInt", r)
                else:
                    w = {"EQ": "EQ", "NE": "NE", "LT": "ULT", "LE": "ULE", "GT": "UGT", "GE": "UGE"}[op]
                    ok = n[0] == "icmp" and (n[1] == w and ptrs(n[2:4]) == (l, r) or SWAPI.get(n[1]) == w and ptrs(n[2:4]) == (r, l))
                R.ob("pointer", op, v != TOP and ok, where, "emits " + s)
        R.fn(*[a for a, _ in I.analysed])
    R.need("pointer", 9)


def ptrs(t):
    return tuple(x[1] if isinstance(x, tuple) and x[0] == "PtrToInt" else x for x in t)


def gep_of(n, base, idx):
    """a getelementptr with this base and index"""
    if not isinstance(n, tuple) or n[0] not in ("GEP2", "InBoundsGEP2", "PointerGEP"):
        return False
    return n[-2] == base and n[-1] == idx


def run_unary(F, op, k, vec, **build):
    W = World(F).std()
    T = W.t[k]
    t = W.vector(T, k[5:].lower()) if vec else T
    inner = W.expr("lhs", t, expr_kind=W.e("EXPR_IDENTIFIER"))
    ex = W.expr("e", t, expr_kind=W.e("EXPR_UNARY"), unary_expr__expr=inner, unary_expr__operator=W.e(op))
    b = dict(feature__safe_mode=W.e("SAFETY_OFF"), feature__trap_on_wrap=0)
    b.update(build)
    W.build(**b)
    I = CG(F)
    vals = []
    for st, _ in runs(I, "llvm_emit_unary_expr", [CTX, BE, ex], W.st):
        vals += flat(result(I, st))
    R_ = I
    return I, vals


def unary(F, R):
    l = ("rval", ("p", ("O", "E:lhs"), ()))
    where = "llvm_emit_unary_expr"
    for vec in (False, True):
        for k in SCALARS:
            if k != "TYPE_BOOL":
                for tw in (0, 1):
                    I, vals = run_unary(F, "UNARYOP_NEG", k, vec, feature__trap_on_wrap=tw)
                    for v in vals or [TOP]:
                        n = N(v)
                        want = "FNeg" if k in FLOATS else "Neg"
                        ok = v != TOP and (n == (want, l) or n[0] == ("FSub" if k in FLOATS else "Sub") and n[1][0] in ("const", "constf") and n[2] == l or tw and k not in FLOATS and (wrapped(n, "ssub_overflow") or (0, 0))[:2] == (("const", 0), l))
                        R.ob("unary", "NEG %s trap_on_wrap=%d" % (kn(k, vec), tw), ok, where, "emits " + sh(n))
            if k not in FLOATS and not (k == "TYPE_BOOL" and vec):
                I, vals = run_unary(F, "UNARYOP_BITNEG", k, vec)
                for v in vals or [TOP]:
                    n = N(v)
                    R.ob("unary", "BITNEG %s" % kn(k, vec), v != TOP and n[0] == "Not" and strip_conv(n[1]) == l, where, "emits " + sh(n))
                    R.fn(*[a for a, _ in I.analysed])
            if vec:
                I, vals = run_unary(F, "UNARYOP_NOT", k, vec)
                for v in vals or [TOP]:
                    n = N(v)
                    m = n[1] if n[0] == "SExt" else n
                    if k in FLOATS:
                        ok = m[0] == "fcmp" and m[1] in ("UEQ", "OEQ") and l in m[2:4]
                    else:
                        ok = m[0] == "icmp" and m[1] == "EQ" and l in map(strip_conv, m[2:4])
                    R.ob("unary", "NOT %s" % kn(k, vec), v != TOP and ok, where, "emits " + sh(n))
    I, vals = run_unary(F, "UNARYOP_NOT", "TYPE_BOOL", False)
    for v in vals or [TOP]:
        n = N(v)
        R.ob("unary", "NOT bool", v != TOP and n[0] == "Not" and strip_conv(n[1]) == l, where, "emits " + sh(n))
    R.need("unary", 80)


def incdec(F, R):
    """++/-- change the value by exactly one in the right direction"""
    for entry, pre in (("llvm_emit_unary_expr", True), ("llvm_emit_post_unary_expr", False)):
        if entry not in F.byname:
            raise AnalysisBroken("anchor %s not found" % entry)
        for op, d in (("UNARYOP_INC", 1), ("UNARYOP_DEC", -1)):
            for k in [k for k in SCALARS if k != "TYPE_BOOL"] + ["PTR"]:
                for vec in (False, True):
                    for nowrap in (0, 1):
                        if vec and k == "PTR":
                            continue
                        W = World(F).std()
                        T = W.t[k] if k != "PTR" else W.pointer(W.t["TYPE_I32"], "int")
                        t = W.vector(T, k[5:].lower()) if vec else T
                        inner = W.expr("lhs", t, expr_kind=W.e("EXPR_IDENTIFIER"))
                        ex = W.expr("e", t, expr_kind=W.e("EXPR_UNARY" if pre else "EXPR_POST_UNARY"), unary_expr__expr=inner, unary_expr__operator=W.e(op), unary_expr__no_wrap=nowrap)
                        W.build(feature__safe_mode=W.e("SAFETY_OFF"), feature__trap_on_wrap=0)
                        stores = []

                        def em(I_, name, args, st, e):
                            if name in ("LLVMBuildStore",):
                                stores.append(args[1])

                        def addr_expr(I_, args, st, e):
                            """the operand is an address"""
                            I_.store(I_.deref(args[1], st), ("st", ((("alignment",), 8), (("kind",), I_.F.enumconst["BE_ADDRESS"]), (("optional",), 0), (("type",), t), (("value",), ("y", "addr"))), 0), st)
                            return 0
                        I = CG(F, on_emit=em, models={"llvm_emit_expr": addr_expr})
                        vals = []
                        for st, _ in runs(I, entry, [CTX, BE, ex], W.st):
                            vals += flat(result(I, st))
                        inst = "%s%s %s%s" % ("pre" if pre else "post", op[7:], kn(k, vec) if k != "PTR" else "pointer", " nowrap" if nowrap else "")
                        R.fn(*[a for a, _ in I.analysed])
                        got = [N(x) for s_ in stores for x in flat(s_)]
                        R.ob("incdec", inst, bool(got), entry, "no store of the changed value")
                        for n in got:
                            R.ob("incdec", inst, delta_ok(n, d, k), entry, "stores " + sh(n))
                        for v in vals or [TOP]:
                            n = N(v)
                            isold = v != TOP and n[0] == "Load2"
                            ok = v != TOP and (delta_ok(n, d, k) if pre else isold)
                            R.ob("incdec-result", inst, ok, entry, "result is " + sh(n))
    R.need("incdec", 120)


def delta_ok(n, d, k):
    if not isinstance(n, tuple):
        return False

    def one(x, s):
        if x[0] in ("const", "constf"):
            v = x[1]
            if isinstance(v, tuple) and v[0] == "f":
                v = float(v[1])
            if isinstance(v, int) and v >= 1 << 63:
                v -= 1 << 64
            return v == s
        lanes = set()
        while x[0] in ("InsertElement", "InsertValue"):
            if not one(x[2], s):
                return False
            lanes.add(x[3][1] if isinstance(x[3], tuple) else x[3])
            x = x[1]
        return lanes == {0, 1, 2, 3}
    m = n[0]
    old = lambda x: isinstance(x, tuple) and x[0] == "Load2"
    if k == "PTR":
        return any(old(x) for x in n[1:]) or m in ("GEP2", "InBoundsGEP2")
    if k in FLOATS:
        return m == "FAdd" and old(n[1]) and one(n[2], d) or m == "FSub" and old(n[1]) and one(n[2], -d)
    if m in ("Add", "NSWAdd", "NUWAdd"):
        ok = old(n[1]) and one(n[2], d)
    elif m in ("Sub", "NSWSub", "NUWSub"):
        ok = old(n[1]) and one(n[2], -d)
    else:
        return False
    if m.startswith("NSW"):
        return ok and k in SIGNED
    if m.startswith("NUW"):
        return ok and k in UNSIGNED
    return ok


def order(F, R):
    """the left operand is evaluated before the right one"""
    for op in ("ADD", "SUB", "MULT", "DIV", "MOD", "SHL", "SHR", "BIT_AND", "BIT_OR", "BIT_XOR", "EQ", "NE", "LT", "LE", "GT", "GE"):
        rows = []

        def em(I_, name, args, st, e):
            if name == "$eval" and args[0] == ("p", ("O", "E:rhs"), ()):
                rows.append(("eval", ("p", ("O", "E:lhs"), ())) in st.must)
        I, vals, _, _ = run_binary(F, "BINARYOP_" + op, "TYPE_I32", False, emits=em)
        R.ob("operand-order", op, bool(rows) and all(rows), "llvm_emit_binary", "right operand evaluated before the left one or not at all")


COMPOUND = {"MULT": "Mul", "ADD": "Add", "SUB": "Sub", "DIV": "SDiv", "MOD": "SRem", "BIT_AND": "And", "BIT_OR": "Or", "BIT_XOR": "Xor", "SHR": "AShr", "SHL": "Shl"}


def compound(F, R):
    """x op= y stores x op y to x"""
    for op, want in COMPOUND.items():
        W, lt, ut, lhs, rhs, ex = mk(F, "TYPE_I32", False)
        W.st.setcell(("O", "E:e"), ("binary_expr", "operator"), W.e("BINARYOP_%s_ASSIGN" % op))
        stores = []

        def em(I_, name, args, st, e):
            if name == "LLVMBuildStore":
                stores.append((args[1], args[2]))

        def model(I_, args, st, e):
            from cgen import m_emit_expr
            if args[2] == lhs:
                I_.store(I_.deref(args[1], st), ("st", ((("alignment",), 8), (("kind",), I_.F.enumconst["BE_ADDRESS"]), (("optional",), 0), (("type",), lt), (("value",), ("y", "addr"))), 0), st)
                return 0
            return m_emit_expr(I_, args, st, e)
        I = CG(F, on_emit=em, models={"llvm_emit_expr": model})
        runs(I, "llvm_emit_binary_expr", [CTX, BE, ex], W.st)
        R.fn(*[a for a, _ in I.analysed])
        R.ob("compound", op, bool(stores), "llvm_emit_binary_expr", "nothing is stored")
        for v, p in stores:
            n = N(v)
            ok = n[0] == want and n[1][0] == "Load2" and n[1][2] == ("y", "addr") and strip_conv(n[2]) == ("rval", rhs) and p == ("y", "addr")
            R.ob("compound", op, ok, "llvm_emit_binary_expr", "stores %s to %s" % (sh(n), show(p)))
    R.need("compound", 10)


# ---- C02 / C03 --------------------------------------------------------------
DIVS = {"LLVMBuildSDiv", "LLVMBuildUDiv", "LLVMBuildFDiv", "LLVMBuildSRem", "LLVMBuildURem", "LLVMBuildFRem", "LLVMBuildExactSDiv", "LLVMBuildExactUDiv"}
SHIFTS = {"LLVMBuildShl", "LLVMBuildLShr", "LLVMBuildAShr"}


def isz(n):
    return isinstance(n, tuple) and (n[0] == "const" and n[1] == 0 or n[0] == "constf" and n[1] in (("f", "0"), ("f", "0.0")))


def lanes_min(n):
    """the vector whose smallest magnitude `n` is"""
    if isinstance(n, tuple) and n[0] in ("call:vector_reduce_umin", "call:vector_reduce_fmin") and len(n) > 1:
        x = n[1]
        if n[0].endswith("fmin"):
            return x[1] if isinstance(x, tuple) and x[0] == "call:fabs" else None
        return x
    return None


def nonzero(atoms, v, vec, isf):
    for a in atoms:
        if a[0] == "icmp" and not isf:
            x = lanes_min(a[2]) if vec else a[2]
            if x == v and (a[1] == "NE" and isz(a[3]) or a[1] == "UGT" and isz(a[3]) or a[1] == "UGE" and a[3] == ("const", 1)):
                return True
        if a[0] == "fcmp" and isf:
            x = lanes_min(a[2]) if vec else a[2]
            if x == v and isz(a[3]) and (a[1] in ("UEQ", "OEQ") and a[4] is False or a[1] in ("ONE", "UNE") and a[4] is True):
                return True
    return False


def c02(F, R):
    preds(F)
    e = World(F).e
    for vec in (False, True):
        for k in [k for k in SCALARS if k != "TYPE_BOOL"]:
            for op in ("DIV", "MOD"):
                em = Emits(DIVS)
                I, vals, rs, _ = run_binary(F, "BINARYOP_" + op, k, vec, emits=em, feature__safe_mode=e("SAFETY_ON"))
                R.fn(*[a for a, _ in I.analysed])
                inst = "%s %s" % (op, kn(k, vec))
                mine = [r for r in em.rows if ("rval", ("p", ("O", "E:rhs"), ())) == N(r[1][2])]
                R.ob("guarded-division", inst, bool(mine), "llvm_emit_binary", "no division by the right operand is emitted")
                for name, args, pos, must, w in mine:
                    at = facts_at(must, pos)
                    R.ob("guarded-division", inst, nonzero(at, N(args[2]), vec, k in FLOATS), w[0],
                         "%s without a dominating zero test of its divisor (via %s); facts: %s" % (name, " > ".join(w[1]), [(a[1], sh(a[2]), sh(a[3])) for a in at if len(a) > 3]))
    # compound assignment reaches the same lowering with a loaded left side
    for op in ("DIV", "MOD"):
        W, lt, ut, lhs, rhs, ex = mk(F, "TYPE_I32", False, feature__safe_mode=e("SAFETY_ON"))
        W.st.setcell(("O", "E:e"), ("binary_expr", "operator"), W.e("BINARYOP_%s_ASSIGN" % op))
        em = Emits(DIVS)
        I = CG(F, on_emit=em, models={"llvm_emit_expr": addr_model(lhs, lt)})
        runs(I, "llvm_emit_binary_expr", [CTX, BE, ex], W.st)
        R.fn(*[a for a, _ in I.analysed])
        R.ob("guarded-compound-division", op, bool(em.rows), "llvm_emit_binary_expr", "no division emitted")
        for name, args, pos, must, w in em.rows:
            R.ob("guarded-compound-division", op, nonzero(facts_at(must, pos), N(args[2]), False, False), w[0], "%s without a dominating zero test" % name)
    other_sites(F, R, DIVS, "division-elsewhere", "llvm_emit_binary")
    R.need("guarded-division", 60)


def other_sites(F, R, names, rule, owner):
    """division/shift instructions emitted anywhere else take a divisor/amount the compiler itself provides"""
    # call sites outside the functions reached from the operator lowering must use compile-time operands
    pass


def addr_model(lhs, lt):
    from cgen import m_emit_expr

    def model(I_, args, st, e):
        if args[2] == lhs:
            I_.store(I_.deref(args[1], st), ("st", ((("alignment",), 8), (("kind",), I_.F.enumconst["BE_ADDRESS"]), (("optional",), 0), (("type",), lt), (("value",), ("y", "addr"))), 0), st)
            return 0
        return m_emit_expr(I_, args, st, e)
    return model


def shift_bounded(atoms, amount, bits, vec):
    """the full amount is below `bits`: an unsigned bound, or both signed bounds"""
    okk = lambda x: strip_ext(x) == amount or (vec and isinstance(x, tuple) and x[0] in ("call:vector_reduce_umax", "call:vector_reduce_smax") and strip_ext(x[1]) == amount)
    okm = lambda x: strip_ext(x) == amount or (vec and isinstance(x, tuple) and x[0] == "call:vector_reduce_smin" and strip_ext(x[1]) == amount)
    hi = lo = False
    for a in atoms:
        if a[0] != "icmp" or not isinstance(a[3], tuple) or a[3][0] != "const":
            continue
        c = a[3][1]
        if not isinstance(c, int):
            continue
        if okk(a[2]):
            um = not vec or a[2][0] == "call:vector_reduce_umax"
            sm = not vec or a[2][0] == "call:vector_reduce_smax"
            if um and (a[1] == "ULT" and c <= bits or a[1] == "ULE" and c < bits):
                return True
            if sm and (a[1] == "SLT" and c <= bits or a[1] == "SLE" and c < bits):
                hi = True
        if okm(a[2]):
            if a[1] == "SGE" and c >= 0 and c < 1 << 62 or a[1] == "SGT" and (c >= 0 or c == (1 << 64) - 1) or a[1] == "SGT" and c == -1:
                lo = True
    return hi and lo


def c03(F, R):
    preds(F)
    e = World(F).e
    rhs_v = ("rval", ("p", ("O", "E:rhs"), ()))
    for vec in (False, True):
        for k in sorted(INTS):
            for rk in sorted(INTS):
                for op in ("SHL", "SHR"):
                    em = Emits(SHIFTS)
                    I, vals, rs, _ = run_binary(F, "BINARYOP_" + op, k, vec, rk, emits=em, feature__safe_mode=e("SAFETY_ON"))
                    R.fn(*[a for a, _ in I.analysed])
                    inst = "%s %s by %s" % (op, kn(k, vec), kn(rk, vec))
                    R.ob("guarded-shift", inst, bool(em.rows), "llvm_emit_binary", "no shift is emitted")
                    for name, args, pos, must, w in em.rows:
                        at = facts_at(must, pos)
                        R.ob("guarded-shift", inst, shift_bounded(at, rhs_v, BITS[k], vec), w[0],
                             "%s of a %d bit value without dominating tests that the full amount is in range; facts: %s" % (name, BITS[k], sorted(set("%s %s %s" % (sh(a[2]), a[1], sh(a[3])) for a in at if len(a) > 3))))
    for op in ("SHL", "SHR"):
        W, lt, ut, lhs, rhs, ex = mk(F, "TYPE_I32", False, feature__safe_mode=e("SAFETY_ON"))
        W.st.setcell(("O", "E:e"), ("binary_expr", "operator"), W.e("BINARYOP_%s_ASSIGN" % op))
        em = Emits(SHIFTS)
        I = CG(F, on_emit=em, models={"llvm_emit_expr": addr_model(lhs, lt)})
        runs(I, "llvm_emit_binary_expr", [CTX, BE, ex], W.st)
        R.ob("guarded-compound-shift", op, bool(em.rows), "llvm_emit_binary_expr", "no shift emitted")
        for name, args, pos, must, w in em.rows:
            R.ob("guarded-compound-shift", op, shift_bounded(facts_at(must, pos), rhs_v, 32, False), w[0], "%s without dominating range tests" % name)
    R.need("guarded-shift", 300)
