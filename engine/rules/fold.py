"""C10: constant folding.  The analyser is interpreted from its expression entry on
operators whose operands are constants with unknown (symbolic) values; the
value of the folded constant is a term over the 128-bit helper operations,
which is normalized and compared with what the operator denotes."""
from rules.util import *
from rules.casts import world as cworld, m_fresh, m_memcpy
from rules.dup import m_vecsize
from rules.implicit import QUIET, SEMA, ident
from absint import term

HELP2 = {"i128_add": "add", "i128_sub": "sub", "i128_mult": "mul", "i128_and": "and", "i128_or": "or", "i128_xor": "xor", "i128_udiv": "udiv", "i128_sdiv": "sdiv",
         "i128_urem": "urem", "i128_srem": "srem", "i128_shl": "shl", "i128_lshr": "lshr", "i128_ashr": "ashr", "i128_add64": "add", "i128_sub64": "sub", "i128_mult64": "mul",
         "i128_shl64": "shl", "i128_lshr64": "lshr", "i128_ashr64": "ashr"}
HELP1 = {"i128_neg": "neg", "i128_not": "not"}
M128 = (1 << 128) - 1


def T(op, *a):
    return ("t", op, tuple(a))


def value(st):
    """the 128-bit value a structure holds"""
    if not (isinstance(st, tuple) and st and st[0] == "st"):
        return st
    d = {p: v for p, v in st[1]}
    hi, lo = d.get(("high",), 0), d.get(("low",), 0)
    return join128(hi, lo)


def join128(hi, lo):
    ih = hi if not (isinstance(hi, tuple) and hi[0] == "t" and hi[1] == "hi") else None
    il = lo if not (isinstance(lo, tuple) and lo[0] == "t" and lo[1] == "lo") else None
    if ih is None and il is None and hi[2] == lo[2]:
        return hi[2][0]
    if isinstance(ih, int) and isinstance(il, int):
        v = ((hi & (2 ** 64 - 1)) << 64) | (lo & (2 ** 64 - 1))
        return v - (1 << 128) if v >> 127 else v
    return T("pair", hi, lo)


def split(t):
    if isinstance(t, int):
        return (("high",), (t & M128) >> 64), (("low",), t & (2 ** 64 - 1))
    return (("high",), T("hi", t)), (("low",), T("lo", t))


def struct(t):
    return ("st", tuple(split(t)), 0)


def arg(v):
    v = value(v)
    if isinstance(v, tuple) and v[0] == "t" and v[1] == "lo":
        return v[2][0]
    return v


def norm(t, bits):
    """t: 128-bit term; bits: (number of bits, signed) of each symbol; extensions of values that already fit vanish"""
    if isset(t):
        s = {norm(x, bits) for x in elems(t)}
        return s.pop() if len(s) == 1 else ("t", "oneof", tuple(sorted(s, key=repr)))
    if not (isinstance(t, tuple) and t and t[0] == "t"):
        return t
    op, a = t[1], tuple(norm(x, bits) for x in t[2])
    if op in ("lshr", "ashr") and isinstance(a[0], tuple) and a[0][:2] == ("t", "shl") and a[0][2][1] == a[1] and isinstance(a[1], int) and 0 <= a[1] < 128:
        return ext(128 - a[1], op == "ashr", a[0][2][0], bits)
    if op == "neg":
        return T("sub", 0, a[0])
    if op in ("add", "mul", "and", "or", "xor"):
        a = tuple(sorted(a, key=repr))
    return T(op, *a)


def width(t, bits):
    """(bits, signed) the term's value is known to fit"""
    if isinstance(t, tuple) and t[:2] == ("t", "sym"):
        return bits.get(t[2][0])
    if isinstance(t, tuple) and t[:2] == ("t", "ext"):
        return t[2][0], t[2][1]
    return None


def ext(n, signed, x, bits):
    """the low n bits of x as a number of that signedness"""
    if isinstance(x, tuple) and x[:2] == ("t", "ext") and x[2][0] >= n:
        return ext(n, signed, x[2][2], bits)
    w = width(x, bits)
    if w and (w[0] <= n and w[1] == signed or w[0] < n and not w[1]):
        return x
    if n == 128:
        return x
    return T("ext", n, signed, x)


SYM = lambda n: T("sym", n)


def world(F):
    W = cworld(F)
    W.canon("type_cint", W.t["TYPE_I32"])
    W.canon("type_cuint", W.t["TYPE_U32"])
    W.st.setcell(("G", "compiler"), ("platform", "width_c_int"), 32)
    return W


class Cfg:
    """outcomes of the comparisons of the unknown operands"""

    def __init__(self, order=None, neg=(), eqbytes=None):
        self.order, self.neg, self.eqbytes = order, neg, eqbytes


def models(F, cfg):
    m = {q: (lambda I, a, s, e: TOP) for q in QUIET}
    m["sema_resolve_type_decl"] = lambda I, a, s, e: 1
    m["vec_size"] = m_vecsize
    m.update({"expr_calloc": m_fresh, "calloc_arena": m_fresh, "memcpy": m_memcpy, "__builtin___memcpy_chk": m_memcpy, "const_init_set_span": lambda I, a, s, e: 0})
    for h, op in HELP2.items():
        m[h] = lambda I, a, s, e, op=op: struct(T(op, value(a[0]), arg(a[1]))) if not (isinstance(value(a[0]), int) and isinstance(arg(a[1]), int)) else NotImplemented
    for h, op in HELP1.items():
        m[h] = lambda I, a, s, e, op=op: struct(T(op, value(a[0]))) if not isinstance(value(a[0]), int) else NotImplemented
    cmpv = {n: F.enumconst["CMP_" + n] for n in ("LT", "EQ", "GT")}
    allc = mkset(list(cmpv.values()))

    def compare(signed):
        def model(I, a, s, e):
            x, y = value(a[0]), value(a[1])
            if isinstance(x, int) and isinstance(y, int):
                return NotImplemented
            if cfg.order and {x, y} == {SYM("a"), SYM("b")}:
                rev = x == SYM("b")
                o = cfg.order["s" if signed else "u"]
                return cmpv[{"LT": "GT", "GT": "LT", "EQ": "EQ"}[o] if rev else o]
            return allc
        return model
    m["i128_scomp"], m["i128_ucomp"] = compare(True), compare(False)

    def isneg(I, a, s, e):
        x = value(a[0])
        if isinstance(x, int):
            return NotImplemented
        if isinstance(x, tuple) and x[:2] == ("t", "sym"):
            return int(x[2][0] in cfg.neg)
        return mkset([0, 1])
    m["i128_is_neg"] = isneg

    def bytecmp(I, a, s, e):
        return TOP if cfg.eqbytes is None else (0 if cfg.eqbytes else 1)
    m["memcmp"] = m["__builtin_memcmp"] = bytecmp
    # stops at a zero byte: equal prefixes say nothing about the texts
    m["strncmp"] = m["strcmp"] = lambda I, a, s, e: mkset([0, 1])
    m["fmod"] = m["fmodl"] = lambda I, a, s, e: T("frem", a[0], a[1])
    return m


def analyse(F, W, ex, cfg):
    I = CG(F, models=models(F, cfg))
    I.max_rec = 8
    I.precise_goto = True
    out = []
    for st, v in runs(I, "sema_analyse_expr", [SEMA, ex], W.st):
        for x in elems(v) if v != TOP else [TOP]:
            if x != 0:
                out.append(st)
    return I, out


def cell(st, ex, path):
    return st.mem.get(ex[1], {}).get(path, st.mem.get(ex[1], {}).get(("~",)))


def load(I, st, ex, *path):
    return I.load([(ex[1], tuple(path))], st)


def cint(W, name, type, kind, v=None):
    v = SYM(name) if v is None else v
    sp = dict((p[0], x) for p, x in split(v))
    return W.expr(name, type, expr_kind=W.e("EXPR_CONST"), resolve_status=W.e("RESOLVE_DONE"), const_expr__const_kind=W.e("CONST_INTEGER"), const_expr__ixx__type=W.e(kind),
                  const_expr__ixx__i__low=sp["low"], const_expr__ixx__i__high=sp["high"])


def cfloat(W, name, type, kind):
    return W.expr(name, type, expr_kind=W.e("EXPR_CONST"), resolve_status=W.e("RESOLVE_DONE"), const_expr__const_kind=W.e("CONST_FLOAT"), const_expr__fxx__type=W.e(kind), const_expr__fxx__f=SYM(name))


def cconst(W, name, type, kind, **kw):
    return W.expr(name, type, expr_kind=W.e("EXPR_CONST"), resolve_status=W.e("RESOLVE_DONE"), const_expr__const_kind=W.e(kind), **{"const_expr__" + k: v for k, v in kw.items()})


def binary(W, op, l, r):
    return W.expr("e", 0, expr_kind=W.e("EXPR_BINARY"), resolve_status=W.e("RESOLVE_NOT_DONE"), binary_expr__operator=W.e("BINARYOP_" + op), binary_expr__left=l, binary_expr__right=r)


def unary(W, op, x):
    return W.expr("e", 0, expr_kind=W.e("EXPR_UNARY"), resolve_status=W.e("RESOLVE_NOT_DONE"), unary_expr__operator=W.e("UNARYOP_" + op), unary_expr__expr=x)


def folded_int(I, st, ex):
    return join128(load(I, st, ex, "const_expr", "ixx", "i", "high"), load(I, st, ex, "const_expr", "ixx", "i", "low"))


def tn(k):
    return k[5:].lower()


PROMOTED = lambda k: k if BITS[k] >= 32 else "TYPE_I32" if k in SIGNED else "TYPE_U32"


def integers(F, Rep):
    ops = [("ADD", "add"), ("SUB", "sub"), ("MULT", "mul"), ("DIV", "div"), ("MOD", "rem"), ("BIT_AND", "and"), ("BIT_OR", "or"), ("BIT_XOR", "xor"), ("SHL", "shl"), ("SHR", "shr")]
    for k in sorted(INTS):
        for op, mean in ops:
            W = world(F)
            a, b = cint(W, "a", W.t[k], k), cint(W, "b", W.t[k], k)
            ex = binary(W, op, a, b)
            I, out = analyse(F, W, ex, Cfg(neg=()))
            Rep.fn(*[x for x, _ in I.analysed])
            r = PROMOTED(k)
            sg = r in SIGNED
            # the promoted operand of a narrow unsigned type stays what it was
            bits = {"a": (BITS[k], k in SIGNED), "b": (BITS[k], k in SIGNED)}
            o = {"div": "sdiv" if sg else "udiv", "rem": "srem" if sg else "urem", "shr": "ashr" if sg else "lshr"}.get(mean, mean)
            want = norm(T(o, SYM("a"), SYM("b")), bits)
            accept = {want, ext(BITS[r], sg, want, bits)} if mean not in ("add", "sub", "mul", "shl", "div") else {ext(BITS[r], sg, want, bits)}
            if not sg and mean == "div":
                accept.add(want)
            check(Rep, W, I, out, ex, a, "%s of two %s constants" % (mean, tn(k)), r, accept, bits)
        for op in ("NEG", "BITNEG", "PLUS"):
            W = world(F)
            a = cint(W, "a", W.t[k], k)
            ex = unary(W, op, a)
            I, out = analyse(F, W, ex, Cfg())
            Rep.fn(*[x for x, _ in I.analysed])
            r = PROMOTED(k)
            bits = {"a": (BITS[k], k in SIGNED)}
            want = {"NEG": T("sub", 0, SYM("a")), "BITNEG": T("not", SYM("a")), "PLUS": SYM("a")}[op]
            check(Rep, W, I, out, ex, a, "%s of a %s constant" % (op.lower(), tn(k)), r, {ext(BITS[r], r in SIGNED, want, bits)}, bits, may_defer=op == "PLUS")


def check(Rep, W, I, out, ex, a, inst, kind, accept, bits, may_defer=False):
    F = W.F
    if not out:
        Rep.ob("integer-fold", inst, False, "sema_analyse_expr", "no accepting path")
        return
    bad = []
    for st in out:
        kinds = elems(load(I, st, ex, "expr_kind"))
        for kd in kinds:
            if kd != F.enumconst["EXPR_CONST"]:
                if not may_defer:
                    bad.append("not folded")
                continue
            v = norm(folded_int(I, st, ex), bits)
            if v not in accept:
                bad.append("folds to %s" % show(v))
            if load(I, st, ex, "const_expr", "ixx", "type") != F.enumconst[kind]:
                bad.append("the constant has kind %s" % show(load(I, st, ex, "const_expr", "ixx", "type")))
            if load(I, st, ex, "const_expr", "const_kind") != F.enumconst["CONST_INTEGER"]:
                bad.append("not an integer")
            if load(I, st, ex, "type") != W.t[kind]:
                bad.append("has type %s" % show(load(I, st, ex, "type")))
    Rep.ob("integer-fold", inst, not bad, "sema_analyse_expr", "; ".join(sorted(set(bad))) or "folds to the operation written")


FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
FADD = {"+": "+", "*": "*"}


def fnorm(t):
    """floating point terms; a > b is b < a"""
    if isset(t):
        s = {fnorm(x) for x in elems(t)}
        return s.pop() if len(s) == 1 else ("t", "oneof", tuple(sorted(s, key=repr)))
    if not (isinstance(t, tuple) and t and t[0] == "t") or t[1] == "sym":
        return t
    a = tuple(fnorm(x) for x in t[2])
    op = t[1]
    if op in (">", ">="):
        op, a = FLIP[op], a[::-1]
    if op in ("==", "!=", "+", "*"):
        a = tuple(sorted(a, key=repr))
    return ("t", op, a)


def result(F, I, st, ex, kind):
    """problems of the folded node apart from its value"""
    bad = []
    if load(I, st, ex, "expr_kind") != F.enumconst["EXPR_CONST"]:
        bad.append("not folded")
    elif load(I, st, ex, "const_expr", "const_kind") != F.enumconst[kind]:
        bad.append("the constant is not of kind %s" % kind[6:].lower())
    return bad


wide = lambda k: k if BITS[k] > 16 else "TYPE_F32"


def floats(F, Rep):
    ops = [("ADD", "+"), ("SUB", "-"), ("MULT", "*"), ("DIV", "/"), ("MOD", "frem")]
    for k in sorted(FLOATS):
        for op, c in ops:
            W = world(F)
            a, b = cfloat(W, "a", W.t[k], k), cfloat(W, "b", W.t[k], k)
            ex = binary(W, op, a, b)
            I, out = analyse(F, W, ex, Cfg())
            Rep.fn(*[x for x, _ in I.analysed])
            verdict(F, Rep, "float-fold", "%s of two %s constants" % (op.lower(), tn(k)), I, out, ex, "CONST_FLOAT", ("fxx", "f"), fnorm(("t", c, (SYM("a"), SYM("b")))), fnorm, extra=lambda st: [] if load(I, st, ex, "const_expr", "fxx", "type") == W.e(wide(k)) and load(I, st, ex, "type") == W.t[wide(k)] else ["wrong type"])
        for op, want in (("NEG", ("t", "u-", (SYM("a"),))),):
            W = world(F)
            ex = unary(W, op, cfloat(W, "a", W.t[k], k))
            I, out = analyse(F, W, ex, Cfg())
            verdict(F, Rep, "float-fold", "%s of a %s constant" % (op.lower(), tn(k)), I, out, ex, "CONST_FLOAT", ("fxx", "f"), want, fnorm)
        for op, c in CMP:
            W = world(F)
            a, b = cfloat(W, "a", W.t[k], k), cfloat(W, "b", W.t[k], k)
            ex = binary(W, op, a, b)
            I, out = analyse(F, W, ex, Cfg())
            verdict(F, Rep, "compare-fold", "%s of two %s constants" % (op.lower(), tn(k)), I, out, ex, "CONST_BOOL", ("b",), fnorm(("t", c, (SYM("a"), SYM("b")))), fnorm)


CMP = [("EQ", "=="), ("NE", "!="), ("LT", "<"), ("LE", "<="), ("GT", ">"), ("GE", ">=")]
HOLDS = {"EQ": {"EQ"}, "NE": {"LT", "GT"}, "LT": {"LT"}, "LE": {"LT", "EQ"}, "GT": {"GT"}, "GE": {"GT", "EQ"}}


def verdict(F, Rep, rule, inst, I, out, ex, kind, path, want, norm=lambda x: x, extra=None):
    bad = [] if out else ["no accepting path"]
    for st in out:
        b = result(F, I, st, ex, kind)
        if not b:
            v = norm(load(I, st, ex, "const_expr", *path))
            if v != want:
                b = ["folds to %s, not to %s" % (show(v), show(want))]
            if extra:
                b += extra(st)
        bad += b
    Rep.ob(rule, inst, not bad, "sema_analyse_expr", "; ".join(sorted(set(bad))) or "folds to what was written")


def comparisons(F, Rep):
    # integers, of one type and of types that differ in sign or width
    for k in sorted(INTS):
        others = [k] + ([x for x in sorted(INTS) if BITS[x] == BITS[k] and x != k]) + ([x for x in sorted(INTS) if (x in SIGNED) != (k in SIGNED) and BITS[x] != BITS[k]][:4])
        for k2 in others:
            for op, _ in CMP:
                cases = []
                for o in ("LT", "EQ", "GT"):
                    if (k in SIGNED) == (k2 in SIGNED):
                        cases.append((Cfg(order={"s": o, "u": "NOPE"} if k in SIGNED else {"s": "NOPE", "u": o}), o))
                    else:
                        # operands of different signs: a negative one is less, others compare by magnitude
                        cases.append((Cfg(order={"s": "NOPE", "u": o}), o))
                        if o == "LT":
                            cases.append((Cfg(order={"s": "NOPE", "u": "NOPE"}, neg=("a",) if k in SIGNED else ("b",)), "LT" if k in SIGNED else "GT"))
                for cfg, o in cases:
                    W = world(F)
                    a, b = cint(W, "a", W.t[k], k), cint(W, "b", W.t[k2], k2)
                    ex = binary(W, op, a, b)
                    cfg.bits = {"a": (BITS[k], k in SIGNED), "b": (BITS[k2], k2 in SIGNED)}
                    I, out = analyse(F, W, ex, cfg)
                    Rep.fn(*[x for x, _ in I.analysed])
                    verdict(F, Rep, "compare-fold", "%s of %s and %s constants when the first is %s%s" % (op.lower(), tn(k), tn(k2), {"LT": "less", "EQ": "equal", "GT": "greater"}[o], " (negative)" if cfg.neg else ""), I, out, ex, "CONST_BOOL", ("b",), int(o in HOLDS[op]))
    # truth values
    for op, _ in CMP + [("AND", 0), ("OR", 0), ("BIT_AND", 0), ("BIT_OR", 0), ("BIT_XOR", 0)]:
        for x in (0, 1):
            for y in (0, 1):
                if op in ("LT", "LE", "GT", "GE"):
                    continue
                W = world(F)
                B = W.t["TYPE_BOOL"]
                ex = binary(W, op, cconst(W, "a", B, "CONST_BOOL", b=x), cconst(W, "b", B, "CONST_BOOL", b=y))
                I, out = analyse(F, W, ex, Cfg())
                Rep.fn(*[q for q, _ in I.analysed])
                want = {"EQ": x == y, "NE": x != y, "AND": x and y, "OR": x or y, "BIT_AND": x & y, "BIT_OR": x | y, "BIT_XOR": x ^ y}[op]
                verdict(F, Rep, "truth-fold", "%s %s %s" % (bool(x), op.lower(), bool(y)), I, out, ex, "CONST_BOOL", ("b",), int(want), norm=lambda v: int(v) if isinstance(v, int) else v)
    for op in ("NOT", "BITNEG"):
        for x in (0, 1):
            W = world(F)
            ex = unary(W, op, cconst(W, "a", W.t["TYPE_BOOL"], "CONST_BOOL", b=x))
            I, out = analyse(F, W, ex, Cfg())
            if op == "NOT":
                verdict(F, Rep, "truth-fold", "%s %s" % (op.lower(), bool(x)), I, out, ex, "CONST_BOOL", ("b",), int(not x))
    for k in ("TYPE_I32", "TYPE_U8", "TYPE_I128"):
        for op in ("AND", "OR", "NOT"):
            for x in (0, 1):
                for y in ((0, 1) if op != "NOT" else (0,)):
                    W = world(F)
                    val = lambda v: v and (1 << (BITS[k] - 2))
                    a, b = cint(W, "a", W.t[k], k, val(x)), cint(W, "b", W.t[k], k, val(y))
                    ex = binary(W, op, a, b) if op != "NOT" else unary(W, op, a)
                    I, out = analyse(F, W, ex, Cfg())
                    verdict(F, Rep, "truth-fold", "%s of %s constants %d%s" % (op.lower(), tn(k), val(x), " and %d" % val(y) if op != "NOT" else ""), I, out, ex, "CONST_BOOL", ("b",), int({"AND": x and y, "OR": x or y, "NOT": not x}[op]))


def decl(W, n, kind, **kw):
    d = ("O", "D:" + n)
    W.st.setcell(d, ("decl_kind",), W.e(kind))
    W.st.setcell(d, ("resolve_status",), W.e("RESOLVE_DONE"))
    for k, v in kw.items():
        W.st.setcell(d, tuple(k.split("__")), v)
    return ("p", d, ())


def others(F, Rep):
    def case(rule, inst, mk, op, cfg, want):
        W = world(F)
        a, b = mk(W)
        ex = binary(W, op, a, b)
        I, out = analyse(F, W, ex, cfg)
        Rep.fn(*[q for q, _ in I.analysed])
        verdict(F, Rep, rule, inst, I, out, ex, "CONST_BOOL", ("b",), int(want), norm=lambda v: int(v) if isinstance(v, int) else v)

    for op in ("EQ", "NE"):
        for same in (1, 0):
            w = int(same == (op == "EQ"))
            what = "%s of two %s" % (op.lower(), "%s")
            sd = "that are the same" if same else "that differ"

            def faults(W):
                T = W.t["TYPE_ANYFAULT"]
                d1, d2 = decl(W, "f1", "DECL_FAULT"), decl(W, "f2", "DECL_FAULT")
                return cconst(W, "a", T, "CONST_FAULT", fault=d1), cconst(W, "b", T, "CONST_FAULT", fault=d1 if same else d2)
            case("identity-fold", what % "faults " + sd, faults, op, Cfg(), w)

            def typeids(W):
                T = W.t["TYPE_TYPEID"]
                return cconst(W, "a", T, "CONST_TYPEID", typeid=W.t["TYPE_I32"]), cconst(W, "b", T, "CONST_TYPEID", typeid=W.t["TYPE_I32" if same else "TYPE_U8"])
            case("identity-fold", what % "typeids " + sd, typeids, op, Cfg(), w)

            def pointers(W):
                T = W.t["ptr"]
                return cconst(W, "a", T, "CONST_POINTER", ptr=64), cconst(W, "b", T, "CONST_POINTER", ptr=64 if same else 72)
            case("identity-fold", what % "pointers " + sd, pointers, op, Cfg(), w)
            for ck in ("CONST_STRING", "CONST_BYTES"):
                def texts(W, lens=(3, 3)):
                    T = W.slice(W.t["TYPE_U8"], "char")
                    mk = lambda n, l: cconst(W, n, T, ck, bytes__ptr=("p", ("O", "TXT:" + n), ()), bytes__len=l)
                    return mk("a", lens[0]), mk("b", lens[1])
                case("text-fold", what % (ck[6:].lower() + " constants ") + sd, texts, op, Cfg(eqbytes=bool(same)), w)
                if not same:
                    case("text-fold", what % (ck[6:].lower() + " constants ") + "where one is the start of the other", lambda W: texts(W, (2, 3)), op, Cfg(eqbytes=True), w)
                    case("text-fold", what % (ck[6:].lower() + " constants ") + "where one is empty", lambda W: texts(W, (2, 0)), op, Cfg(eqbytes=True), w)
    for op, _ in CMP:
        for x, y, o in ((1, 2, "LT"), (2, 2, "EQ"), (2, 1, "GT"), (0, 200, "LT")):
            def enums(W):
                ty = decl(W, "En", "DECL_ENUM")
                T = W.type("En", "TYPE_ENUM", decl=ty)
                ti = ("O", "TI:En")
                W.st.setcell(ti, ("type",), W.t["TYPE_U8"])
                W.st.setcell(ty[1], ("enums", "type_info"), ("p", ti, ()))
                W.st.setcell(ty[1], ("type",), T)
                m = {}
                for v in {x, y}:
                    m[v] = decl(W, "en%d" % v, "DECL_ENUM_CONSTANT", type=T, enum_constant__ordinal=v)
                return cconst(W, "a", T, "CONST_ENUM", enum_val=m[x]), cconst(W, "b", T, "CONST_ENUM", enum_val=m[y])
            case("compare-fold", "%s of enum values %d and %d" % (op.lower(), x, y), enums, op, Cfg(), o in HOLDS[op])
        for x, y, o in ((8, 16, "LT"), (16, 16, "EQ"), (1 << 63, 16, "GT")):
            def ptrs(W):
                T = W.t["ptr"]
                return cconst(W, "a", T, "CONST_POINTER", ptr=x), cconst(W, "b", T, "CONST_POINTER", ptr=y)
            case("compare-fold", "%s of the pointers %d and %d" % (op.lower(), x, y), ptrs, op, Cfg(), o in HOLDS[op])


def conversions(F, Rep):
    """casts of constants"""
    def cast(W, ex, to, cfg=None, extra=None):
        m = models(F, cfg or Cfg())
        m.update(extra or {})
        I = CG(F, models=m)
        I.max_rec = 8
        I.precise_goto = True
        out = [st for st, v in runs(I, "cast_explicit", [SEMA, ex, to], W.st) if v != 0]
        Rep.fn(*[q for q, _ in I.analysed])
        return I, out
    for k in sorted(INTS):
        for t in sorted(INTS):
            W = world(F)
            ex = cint(W, "a", W.t[k], k)
            I, out = cast(W, ex, W.t[t])
            bits = {"a": (BITS[k], k in SIGNED)}
            bad = [] if out else ["no accepting path"]
            want = ext(BITS[t], t in SIGNED, SYM("a"), bits)
            alt = SYM("a") if BITS[t] == 128 else None
            for st in out:
                b = result(F, I, st, ex, "CONST_INTEGER")
                v = norm(folded_int(I, st, ex), bits)
                if v not in (want, alt):
                    b.append("has the value %s, not %s" % (show(v), show(want)))
                if load(I, st, ex, "const_expr", "ixx", "type") != F.enumconst[t] or load(I, st, ex, "type") != W.t[t]:
                    b.append("has the wrong type")
                bad += b
            Rep.ob("conversion-fold", "%s constant to %s" % (tn(k), tn(t)), not bad, "cast_explicit", "; ".join(sorted(set(bad))) or "keeps the low bits")
        for t in sorted(FLOATS):
            W = world(F)
            ex = cint(W, "a", W.t[k], k)
            I, out = cast(W, ex, W.t[t], extra={"i128_to_float": lambda I, a, s, e: T("ufp", value(a[0])), "i128_to_float_signed": lambda I, a, s, e: T("sfp", value(a[0]))})
            want = T("sfp" if k in SIGNED else "ufp", SYM("a"))
            ok = {want} | ({T("sfp", SYM("a"))} if BITS[k] < 128 else set())
            bad = [] if out else ["no accepting path"]
            for st in out:
                b = result(F, I, st, ex, "CONST_FLOAT")
                v = load(I, st, ex, "const_expr", "fxx", "f")
                if v not in ok:
                    b.append("has the value %s" % show(v))
                if load(I, st, ex, "const_expr", "fxx", "type") != F.enumconst[t] or load(I, st, ex, "type") != W.t[t]:
                    b.append("has the wrong type")
                bad += b
            Rep.ob("conversion-fold", "%s constant to %s" % (tn(k), tn(t)), not bad, "cast_explicit", "; ".join(sorted(set(bad))) or "is the number")
        for x in (0, 1, 2, 1 << (BITS[k] - 2)):
            W = world(F)
            ex = cint(W, "a", W.t[k], k, x)
            I, out = cast(W, ex, W.t["TYPE_BOOL"])
            verdict(F, Rep, "conversion-fold", "%s constant %d to bool" % (tn(k), x), I, out, ex, "CONST_BOOL", ("b",), int(x != 0), norm=lambda v: int(v) if isinstance(v, int) else v)
        for x in (0, 1):
            W = world(F)
            ex = cconst(W, "a", W.t["TYPE_BOOL"], "CONST_BOOL", b=x)
            I, out = cast(W, ex, W.t[k])
            bad = [] if out else ["no accepting path"]
            for st in out:
                bad += result(F, I, st, ex, "CONST_INTEGER")
                if folded_int(I, st, ex) != x or load(I, st, ex, "const_expr", "ixx", "type") != F.enumconst[k]:
                    bad.append("has the value %s" % show(folded_int(I, st, ex)))
            Rep.ob("conversion-fold", "%s to %s" % (bool(x), tn(k)), not bad, "cast_explicit", "; ".join(sorted(set(bad))) or "is the number")
    for f in sorted(FLOATS):
        for t in sorted(INTS):
            W = world(F)
            ex = cfloat(W, "a", W.t[f], f)
            I, out = cast(W, ex, W.t[t], extra={"i128_from_double_unsigned": lambda I, a, s, e: struct(T("fpu", a[0])), "i128_from_double_signed": lambda I, a, s, e: struct(T("fps", a[0]))})
            bad = [] if out else ["no accepting path"]
            want = T("fps" if t in SIGNED else "fpu", SYM("a"))
            for st in out:
                b = result(F, I, st, ex, "CONST_INTEGER")
                v = norm(folded_int(I, st, ex), {})
                if v not in (want, ext(BITS[t], t in SIGNED, want, {})):
                    b.append("has the value %s" % show(v))
                if load(I, st, ex, "const_expr", "ixx", "type") != F.enumconst[t] or load(I, st, ex, "type") != W.t[t]:
                    b.append("has the wrong type")
                bad += b
            Rep.ob("conversion-fold", "%s constant to %s" % (tn(f), tn(t)), not bad, "cast_explicit", "; ".join(sorted(set(bad))) or "is the number")
        for t in sorted(FLOATS - {f}):
            W = world(F)
            ex = cfloat(W, "a", W.t[f], f)
            I, out = cast(W, ex, W.t[t])
            verdict(F, Rep, "conversion-fold", "%s constant to %s" % (tn(f), tn(t)), I, out, ex, "CONST_FLOAT", ("fxx", "f"), SYM("a"), extra=lambda st: [] if load(I, st, ex, "const_expr", "fxx", "type") == W.e(t) and load(I, st, ex, "type") == W.t[t] else ["wrong type"])


def choices(F, Rep):
    """&&& and ||| and ?: with constant conditions"""
    for op in ("CT_AND", "CT_OR"):
        for x in (0, 1):
            for y in (0, 1):
                W = world(F)
                B = W.t["TYPE_BOOL"]
                ex = binary(W, op, cconst(W, "a", B, "CONST_BOOL", b=x), cconst(W, "b", B, "CONST_BOOL", b=y))
                I, out = analyse(F, W, ex, Cfg())
                Rep.fn(*[q for q, _ in I.analysed])
                verdict(F, Rep, "truth-fold", "%s %s %s" % (bool(x), op.lower(), bool(y)), I, out, ex, "CONST_BOOL", ("b",), int(x and y if op == "CT_AND" else x or y), norm=lambda v: int(v) if isinstance(v, int) else v)
    for k in ("TYPE_I32", "TYPE_U64", "TYPE_I128"):
        for c in (0, 1):
            W = world(F)
            cond = cconst(W, "c", W.t["TYPE_BOOL"], "CONST_BOOL", b=c)
            a, b = cint(W, "a", W.t[k], k), cint(W, "b", W.t[k], k)
            ex = W.expr("e", 0, expr_kind=W.e("EXPR_TERNARY"), resolve_status=W.e("RESOLVE_NOT_DONE"), ternary_expr__cond=cond, ternary_expr__then_expr=a, ternary_expr__else_expr=b)
            I, out = analyse(F, W, ex, Cfg())
            Rep.fn(*[q for q, _ in I.analysed])
            bad = [] if out else ["no accepting path"]
            for st in out:
                bad += result(F, I, st, ex, "CONST_INTEGER")
                v = folded_int(I, st, ex)
                if v != SYM("a" if c else "b"):
                    bad.append("folds to %s" % show(v))
            Rep.ob("choice-fold", "%s ? a : b of %s constants" % (bool(c), tn(k)), not bad, "sema_analyse_expr", "; ".join(sorted(set(bad))) or "picks the right side")


def variables(F, Rep):
    """++ and -- of compile-time variables"""
    for k in sorted(INTS):
        for op, mean in (("INC", "add"), ("DEC", "sub")):
            for post in (0, 1):
                W = world(F)
                init = cint(W, "a", W.t[k], k)
                d = ("O", "D:ct")
                for f, v in (("decl_kind", W.e("DECL_VAR")), ("resolve_status", W.e("RESOLVE_DONE")), ("var.kind", W.e("VARDECL_LOCAL_CT")), ("var.init_expr", init), ("type", W.t[k]), ("name", ("s", "$ct"))):
                    W.st.setcell(d, tuple(f.split(".")), v)
                id_ = W.expr("id", W.t[k], expr_kind=W.e("EXPR_CT_IDENT"), resolve_status=W.e("RESOLVE_DONE"), ct_ident_expr__decl=("p", d, ()))
                W.st.setcell(("O", "semactx"), ("call_env", "in_other"), 0)
                W.st.setcell(("O", "semactx"), ("call_env", "in_no_eval"), 0)
                ex = W.expr("e", 0, expr_kind=W.e("EXPR_POST_UNARY" if post else "EXPR_UNARY"), resolve_status=W.e("RESOLVE_NOT_DONE"), unary_expr__operator=W.e("UNARYOP_" + op), unary_expr__expr=id_)
                I, out = analyse(F, W, ex, Cfg())
                Rep.fn(*[q for q, _ in I.analysed])
                bits = {"a": (BITS[k], k in SIGNED)}
                new = ext(BITS[k], k in SIGNED, norm(T(mean, SYM("a"), 1), bits), bits)
                bad = [] if out else ["no accepting path"]
                for st in out:
                    v = norm(folded_int(I, st, ex), bits)
                    if v != (SYM("a") if post else new):
                        bad.append("the expression is %s" % show(v))
                    vi = load(I, st, ("p", d, ()), "var", "init_expr")
                    w = norm(folded_int(I, st, vi), bits) if isinstance(vi, tuple) and vi[0] == "p" else vi
                    if w != new:
                        bad.append("the variable becomes %s" % show(w))
                Rep.ob("variable-fold", "%s%s of a %s compile-time variable" % ("post " if post else "", op.lower(), tn(k)), not bad, "sema_analyse_expr", "; ".join(sorted(set(bad))) or "is changed by one")


def enums(F, Rep):
    """an enum constant plus or minus a number"""
    for x in range(4):
        for n in range(-4, 5):
            for op in ("ADD", "SUB"):
                for swap in (0, 1) if op == "ADD" else (0,):
                    W = world(F)
                    ty = decl(W, "En", "DECL_ENUM", resolve_status=W.e("RESOLVE_DONE"))
                    T = W.type("En", "TYPE_ENUM", decl=ty)
                    ti = ("O", "TI:En")
                    for f, v in (("type", W.t["TYPE_U8"]), ("resolve_status", W.e("RESOLVE_DONE"))):
                        W.st.setcell(ti, (f,), v)
                    W.st.setcell(ty[1], ("enums", "type_info"), ("p", ti, ()))
                    W.st.setcell(ty[1], ("type",), T)
                    from rules.traps import vec
                    vals = [decl(W, "en%d" % v, "DECL_ENUM_CONSTANT", type=T, enum_constant__ordinal=v) for v in range(4)]
                    W.st.setcell(ty[1], ("enums", "values"), vec(W, "en", vals))
                    l, r = cconst(W, "a", T, "CONST_ENUM", enum_val=vals[x]), cint(W, "b", W.t["TYPE_I32"], "TYPE_I32", n)
                    ex = binary(W, op, r, l) if swap else binary(W, op, l, r)
                    I, out = analyse(F, W, ex, Cfg())
                    Rep.fn(*[q for q, _ in I.analysed])
                    want = x + n if op == "ADD" else x - n
                    inst = "enum constant %d %s %d%s" % (x, "+" if op == "ADD" else "-", n, " (swapped)" if swap else "")
                    if 0 <= want < 4:
                        if n >= 0:
                            verdict(F, Rep, "enum-fold", inst, I, out, ex, "CONST_ENUM", ("enum_val",), vals[want])
                    else:
                        Rep.ob("enum-fold", inst, not out, "sema_analyse_expr", "is accepted" if out else "is rejected")


def c10(F, Rep):
    preds(F)
    integers(F, Rep)
    floats(F, Rep)
    comparisons(F, Rep)
    others(F, Rep)
    conversions(F, Rep)
    choices(F, Rep)
    variables(F, Rep)
    enums(F, Rep)
    from rules.bounds import folded_elements
    folded_elements(F, Rep)
