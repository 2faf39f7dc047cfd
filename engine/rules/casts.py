"""C08: run-time conversions.  The analyser's cast dispatcher is interpreted on a
leaf of every source type, the resulting tree is handed to the interpreted
code generator, and the emitted instruction chain is compared with the
numeric meaning of the conversion."""
from rules.util import *
from rules.ops import BE, isz
from rules.safety import R as RV
from rules.dup import m_memcpy
from cgen import m_emit_expr, ctype, llty, llrep, KINDS, typeof, I1
from absint import term
from facts import AnalysisBroken

E = lambda n: ("O", "E:" + n)


def m_fresh(I, args, st, e):
    I.F.fresh = getattr(I.F, "fresh", 0) + 1
    b = ("O", "new:%d" % I.F.fresh)
    st.mem[b] = {("~",): 0}
    return ("p", b, ())


def leafs(mode):
    """copies of the leaf evaluate to the leaf; everything else is lowered by the code under analysis"""
    def model(I, args, st, e):
        lv = I.deref(args[2], st)
        if lv == TOP or len(lv) != 1:
            return m_emit_expr(I, args, st, e)
        if I.load([(b, p + ("expr_kind",)) for b, p in lv], st) != I.F.enumconst["EXPR_IDENTIFIER"]:
            return NotImplemented
        leaf = I.load([(lv[0][0], ("$leaf",))], st)
        ex = leaf if isinstance(leaf, tuple) and leaf[0] == "p" else args[2]
        ty = I.load([(ex[1], ("type",))], st)
        ty = LOWERED.get(ty, ty)
        kind, v, al = {"val": ("BE_VALUE", ("t", "rval", (ex, ty)), 0), "addr": ("BE_ADDRESS", ("t", "addr", (ex,)), 8), "bool": ("BE_BOOLEAN", ("t", "boolval", (ex,)), 0)}[mode]
        I.store(I.deref(args[1], st), ("st", ((("alignment",), al), (("kind",), I.F.enumconst[kind]), (("optional",), 0), (("type",), ty), (("value",), v)), 0), st)
        return 0
    return model


LOWERED = {}


def m_isnonfinite(I, args, st, e):
    v = args[0]
    return 0 if isinstance(v, int) or isinstance(v, tuple) and v[0] == "f" and v[1].lstrip("-")[:1].isdigit() else NotImplemented


def m_printf(I, args, st, e):
    st.setcell(("G", "$scratch"), (), ("t", "fmt", tuple(args)))
    return 0


def m_realstring(I, args, st, e):
    f = st.mem.get(("G", "$scratch"), {}).get(())
    if isinstance(f, tuple) and f[1] == "fmt" and len(f[2]) == 2 and f[2][0] == ("s", "%a"):
        return ("t", "LLVMConstReal", (args[0], f[2][1]))
    return NotImplemented


CONSTF = {"__builtin_isnan": m_isnonfinite, "__builtin_isinf": m_isnonfinite, "__builtin_isinf_sign": m_isnonfinite, "__isnan": m_isnonfinite, "__isinf": m_isnonfinite, "isnan": m_isnonfinite, "isinf": m_isnonfinite,
          "__isnanf": m_isnonfinite, "__isinff": m_isnonfinite, "__isnanl": m_isnonfinite, "__isinfl": m_isnonfinite,
          "scratch_buffer_printf": m_printf, "LLVMConstRealOfStringAndSize": m_realstring}


def world(F):
    W = World(F).std()
    for g, k, n in (("type_anyfault", "TYPE_ANYFAULT", "anyfault"), ("type_typeid", "TYPE_TYPEID", "typeid")):
        W.t[k] = W.type(n, k)
        if "type_" + {"anyfault": "fault", "typeid": "typeid"}[n] not in F.gvars and g not in F.gvars:
            raise AnalysisBroken("global %s not found" % g)
        W.canon(g if g in F.gvars else "type_fault", W.t[k])
    W.canon("type_uptr", W.t["TYPE_U64"])
    W.canon("type_iptr", W.t["TYPE_I64"])
    W.t["ptr"] = W.pointer(W.t["TYPE_I32"], "int")
    W.t["ptr2"] = W.pointer(W.t["TYPE_F64"], "double")
    W.t["void"] = W.type("void", "TYPE_VOID")
    W.canon("type_void", W.t["void"])
    W.t["voidptr"] = W.pointer(W.t["void"], "void")
    W.canon("type_voidptr", W.t["voidptr"])
    return W


def convert(F, W, leaf, to, mode="val", extra=None):
    m = {"expr_calloc": m_fresh, "memcpy": m_memcpy, "__builtin___memcpy_chk": m_memcpy, "calloc_arena": m_fresh, "llvm_emit_expr": leafs(mode)}
    m.update(CONSTF)
    m.update(extra or {})
    orig = W.expr("leaf", W.st.mem[leaf[1]][("type",)], expr_kind=W.e("EXPR_IDENTIFIER"))
    W.st.setcell(leaf[1], ("expr_kind",), W.e("EXPR_IDENTIFIER"))
    W.st.setcell(leaf[1], ("resolve_status",), W.e("RESOLVE_DONE"))
    W.st.setcell(leaf[1], ("$leaf",), orig)
    d = ("O", "D:var")
    for k, v in (("decl_kind", "DECL_VAR"), ("resolve_status", "RESOLVE_DONE"), ("var.kind", "VARDECL_LOCAL")):
        W.st.setcell(d, tuple(k.split(".")), W.e(v))
    W.st.setcell(d, ("type",), W.st.mem[leaf[1]][("type",)])
    W.st.setcell(leaf[1], ("ident_expr",), ("p", d, ()))
    out = []
    I = CG(F, models=m)
    I.opaque = set(I.opaque) - {"calloc_arena"}
    I.max_rec = 6
    states = [W.st]
    for target in to if isinstance(to, list) else [to]:
        states = [x for s0 in states for x, _ in runs(I, "cast_no_check", [leaf, target, 0], s0)]
    for st in states:
        I2 = CG(F, models=m)
        I2.opaque = I.opaque
        I2.max_rec = I.max_rec
        st.must = frozenset()
        for st2, _ in runs(I2, "llvm_emit_expr", [CTX, BE, leaf], st):
            cell = lambda k: I2.load([(BE[1], BE[2] + (k,))], st2)
            out.append((cell("kind"), cell("value"), cell("type"), I2.load([(leaf[1], ("type",))], st2)))
        I.analysed |= I2.analysed
    return I, out


NAME = {}
PTRS = ("ptr", "voidptr")


def oracle(f, t):
    """name of the instruction that performs the conversion between two element kinds, or a list of alternatives; None for no change"""
    if f == t:
        return [None]
    bf, bt = [64 if k in PTRS or k in ("TYPE_TYPEID", "TYPE_ANYFAULT") else BITS[k] for k in (f, t)]
    fi, ti = f in INTS, t in INTS
    addr = ("TYPE_TYPEID", "TYPE_ANYFAULT")
    if t == "TYPE_BOOL":
        return ["nonzero"]
    if f == "TYPE_BOOL":
        return ["BoolToInt"] if ti else ["UIToFP"]
    if f in FLOATS and t in FLOATS:
        return ["FPExt"] if bt > bf else ["FPTrunc"] if bt < bf else ["ViaWider"]
    if f in FLOATS:
        return ["FPToSI" if t in SIGNED else "FPToUI"]
    if t in FLOATS:
        return ["SIToFP" if f in SIGNED else "UIToFP"]
    if fi and ti:
        return [None] if bf == bt else ["Trunc"] if bt < bf else ["SExt" if f in SIGNED else "ZExt"]
    if f in addr and ti:
        return [None] if bt == 64 else ["SExt", "ZExt"]
    if f in PTRS and ti:
        return ["PtrToInt"]
    if fi and t in PTRS:
        return ["IntToPtr"]
    if f in addr and t in PTRS:
        return ["IntToPtr"]
    if f in PTRS and t in PTRS:
        return [None]
    raise AnalysisBroken("no oracle for %s to %s" % (f, t))


def pairs(vec):
    nums = [k for k in SCALARS if k != "TYPE_BOOL"]
    allk = ["TYPE_BOOL"] + nums
    for f in allk:
        for t in allk:
            if f != t:
                yield f, t
    wide = ("TYPE_I64", "TYPE_U64", "TYPE_I128", "TYPE_U128")
    for p in PTRS:
        for k in wide:
            yield p, k
            yield k, p
        yield p, "TYPE_BOOL"
    yield "ptr", "voidptr"
    yield "voidptr", "ptr"
    if vec:
        return
    for a in ("TYPE_TYPEID", "TYPE_ANYFAULT"):
        for k in wide:
            yield a, k
        for p in PTRS:
            yield a, p
        yield a, "TYPE_BOOL"


def source(n, mode):
    """the leaf under the representation of truth values in memory"""
    leaf = ("p", E("leaf"), ())
    if n == ("rval", leaf):
        return True
    if not isinstance(n, tuple):
        return False
    if n[0] == "Trunc" and isinstance(n[2], tuple) and "intN" in str(n[2]):
        return source(n[1], mode)
    if n == ("boolval", leaf):
        return mode == "bool"
    return n[0] == "Load2" and ("addr", leaf) in n


def matches(op, n, f, t, vec, mode, rep):
    src = lambda x: source(x, mode)
    if op is None:
        return src(n)
    if not isinstance(n, tuple):
        return False
    if op == "nonzero":
        if n[0] == "IsNotNull":
            return f not in FLOATS and src(n[1])
        if n[0] == "icmp":
            return f not in FLOATS and n[1] == "NE" and src(n[2]) and isz(n[3])
        return n[0] == "fcmp" and f in FLOATS and n[1] in ("ONE", "UNE") and src(n[2]) and n[3] in (("constf", 0), ("constf", ("f", "0.0")), ("constf", ("f", "0")), ("const", 0))
    if op == "BoolToInt":
        # a lane of a truth vector becomes all ones, a single truth value becomes one
        if vec:
            if n[0] != "SExt":
                return src(n) and False
            return src(n[1]) and isinstance(n[1], tuple) and n[1][0] in ("Trunc", "boolval")
        if t in ("TYPE_I8", "TYPE_U8") and src(n) and n[0] not in ("Trunc", "boolval"):
            return True
        return n[0] == "ZExt" and src(n[1])
    if op == "ViaWider":
        return n[0] == "FPTrunc" and isinstance(n[1], tuple) and n[1][0] == "FPExt" and src(n[1][1])
    if op == "IntToPtr" and f in INTS and BITS[f] != 64:
        # the integer is brought to the size of a pointer by its own sign, or by the instruction itself
        inner = n[1]
        want = "Trunc" if BITS[f] > 64 else "SExt" if f in SIGNED else "ZExt"
        return n[0] == "IntToPtr" and (src(inner) and BITS[f] > 64 or isinstance(inner, tuple) and inner[0] == want and src(inner[1]))
    return n[0] == op and src(n[1])


def distinct(W, T, name):
    d = ("O", "D:" + name)
    ti = ("O", "TI:" + name)
    W.st.setcell(ti, ("type",), T)
    W.st.setcell(d, ("distinct",), ("p", ti, ()))
    p = W.type(name, "TYPE_DISTINCT", decl=("p", d, ()))
    LOWERED[p] = T
    return p


def c08(F, Rep):
    preds(F)
    for vec in (False, True):
        for f, t in pairs(vec):
            for variant in ("plain", "distinct") if vec or f not in PTRS else ("plain",):
                modes = ("val",) if variant == "distinct" else ("val", "addr") + (("bool",) if f == "TYPE_BOOL" and not vec else ())
                for mode in modes:
                    W = world(F)
                    nm = lambda k: {"ptr": "int*", "voidptr": "void*"}.get(k) or W.t[k][1][1][2:]
                    A, B = W.t[f], W.t[t]
                    an, bn = nm(f), nm(t)
                    lowA, lowB = A, B
                    if variant == "distinct":
                        A, B = distinct(W, A, "A" + an), distinct(W, B, "B" + bn)
                    if vec:
                        lowA, lowB = W.vector(lowA, an), W.vector(lowB, bn)
                        if variant == "distinct":
                            A, B = W.vector(A, "A" + an), W.vector(B, "B" + bn)
                            LOWERED[A] = lowA
                            LOWERED[B] = lowB
                            B = distinct(W, B, "BV" + bn)
                            LOWERED[B] = lowB
                        else:
                            A, B = lowA, lowB
                    leaf = W.expr("e", A)
                    W.build(feature__safe_mode=W.e("SAFETY_OFF"), feature__trap_on_wrap=0, debug_info=0)
                    I, out = convert(F, W, leaf, B, mode)
                    Rep.fn(*[a for a, _ in I.analysed])
                    inst = "%s%s to %s%s%s%s" % (an, "[<4>]" if vec else "", bn, "[<4>]" if vec else "", " (distinct types)" if variant == "distinct" else "", {"val": "", "addr": ", from memory", "bool": ", from a comparison"}[mode])
                    where = "cast_no_check/llvm_emit_expr"
                    if not out:
                        Rep.ob("conversion", inst, False, where, "the conversion has no lowering")
                        continue
                    ops = oracle(f, t)
                    for kind, v, ty, ety in out:
                        n = N(v)
                        rep = llrep(llty(lowB))
                        ok = v != TOP and any(matches(o, n, f, t, vec, mode, rep) for o in ops)
                        Rep.ob("conversion", inst, ok, where, "emits %s, expected %s" % (sh(n)[:200], " or ".join(str(o) for o in ops)))
                        if ok and n[0] in ("SExt", "ZExt", "Trunc", "FPExt", "FPTrunc", "FPToSI", "FPToUI", "SIToFP", "UIToFP", "PtrToInt", "IntToPtr") and not (n[0] == "Trunc" and source(n, mode) and None in ops):
                            got = typeof(v)
                            got = llrep(llty(LOWERED.get(ctype(got), ctype(got)))) if ctype(got) else llrep(got)
                            Rep.ob("conversion-width", inst, got == rep, where, "the instruction produces %s instead of %s" % (got, rep))
                        Rep.ob("conversion-type", inst, ety == B, where, "the converted expression has type %s" % (ety,))
    c08_chains(F, Rep)
    c08_aggregates(F, Rep)


# -- compositions, and the conversions that are not between numbers ---------

def den(n, mode, srck):
    """meaning of an emitted chain as a function of the source: ("bits", (bit, ...)) or ("fp", ...)"""
    leaf = ("p", E("leaf"), ())
    w = typerep
    if source_is_leaf(n, leaf):
        k = "ptr" if srck in PTRS else srck
        if k in FLOATS:
            return ("fp", "src", k)
        b = 64 if k in PTRS or k in ("TYPE_TYPEID", "TYPE_ANYFAULT") else BITS[k]
        if k == "TYPE_BOOL":
            return ("bits", tuple([("s", 0)] + [0] * 7)) if n[0] != "boolval" else ("bits", (("s", 0),))
        return ("bits", tuple(("s", i) for i in range(b)))
    if not isinstance(n, tuple):
        return None
    op = n[0]
    if op in ("SExt", "ZExt", "Trunc", "PtrToInt", "IntToPtr"):
        x = den(n[1], mode, srck)
        r = w(n[2])
        if x is None or x[0] != "bits" or r is None or r[0] == "fp":
            return None
        b, s = r[1], list(x[1])
        if b > len(s):
            s += [s[-1] if op == "SExt" else 0] * (b - len(s))
        return ("bits", tuple(s[:b]))
    if op in ("FPExt", "FPTrunc"):
        x, r = den(n[1], mode, srck), w(n[2])
        return x and r and x[0] == "fp" and ("fp", op, r, x) or None
    if op in ("SIToFP", "UIToFP"):
        x, r = den(n[1], mode, srck), w(n[2])
        return x and r and x[0] == "bits" and ("fp", op, r, x) or None
    if op in ("FPToSI", "FPToUI"):
        x, r = den(n[1], mode, srck), w(n[2])
        return ("bits", tuple(("f", op, x, i) for i in range(r[1]))) if x and r and x[0] == "fp" else None
    if op == "IsNotNull" or op == "icmp" and n[1] == "NE" and isz(n[3]):
        x = den(n[1] if op == "IsNotNull" else n[2], mode, srck)
        return x and x[0] == "bits" and ("bits", (nonzero(x[1]),)) or None
    if op == "fcmp" and n[1] in ("ONE", "UNE") and n[3] in (("constf", 0), ("constf", ("f", "0.0")), ("constf", ("f", "0")), ("const", 0)):
        x = den(n[2], mode, srck)
        return x and x[0] == "fp" and ("bits", (("nz", x),)) or None
    return None


def typerep(n):
    """representation of a type that is an argument of a normalised instruction"""
    if isinstance(n, tuple) and n and n[0] not in ("y", "p", "s", "t", "f"):
        n = ("t", n[0], tuple(("t", x[0], tuple(x[1:])) if isinstance(x, tuple) and x and x[0] in ("intN", "llvm_get_type") else x for x in n[1:]))
    c = ctype(n)
    r = llrep(llty(LOWERED.get(c, c))) if c else llrep(n)
    return ("int", 64) if r and r[0] == "ptr" else r


def nonzero(bits):
    live = tuple(sorted(set(b for b in bits if b != 0), key=repr))
    if len(live) == 1:
        return live[0]
    return ("nz", live) if live else 0


def source_is_leaf(n, leaf):
    return n == ("rval", leaf) or n == ("boolval", leaf) or isinstance(n, tuple) and n[0] == "Load2" and ("addr", leaf) in n


def step(d, f, t):
    """meaning of converting d (of kind f) to kind t"""
    if f == t:
        return d
    op = oracle(f, t)[0]
    width = lambda k: 64 if k in PTRS else BITS[k]
    rep = lambda k: ("bf" if k == "TYPE_BF16" else "fp", BITS[k])
    if t == "TYPE_BOOL":
        return ("bits", (nonzero(d[1]) if d[0] == "bits" else ("nz", d),) + (0,) * 7)
    if f in FLOATS and t in FLOATS:
        if op == "ViaWider":
            return ("fp", "FPTrunc", rep(t), ("fp", "FPExt", ("fp", 32), d))
        return ("fp", op, rep(t), d)
    if f in FLOATS:
        return ("bits", tuple(("f", op, d, i) for i in range(BITS[t])))
    if t in FLOATS:
        return ("fp", op, rep(t), d if f != "TYPE_BOOL" else ("bits", d[1][:1]))
    b, s = width(t), list(d[1])
    return ("bits", tuple((s + [s[-1] if f in SIGNED else 0] * (b - len(s)))[:b]))


def canon(d):
    """the converted integers of a truth value are the same whichever width they pass through"""
    if isinstance(d, tuple) and d and d[0] == "fp" and d[1] in ("SIToFP", "UIToFP"):
        bits = list(d[3][1])
        while len(bits) > 1 and bits[-1] == 0:
            bits.pop()
        if d[1] == "SIToFP" and len(bits) == len(d[3][1]):
            return d
        return ("fp", "UIToFP", d[2], ("bits", tuple(bits)))
    return d


CHAIN = ["TYPE_BOOL", "TYPE_I8", "TYPE_U8", "TYPE_I32", "TYPE_U32", "TYPE_I64", "TYPE_U64", "TYPE_I128", "TYPE_F32", "TYPE_F64", "ptr"]


def legal(f, t):
    if f == t:
        return False
    if "ptr" in (f, t):
        o = t if f == "ptr" else f
        return o in INTS and BITS[o] >= 64 or t == "TYPE_BOOL"
    return True


def c08_chains(F, Rep):
    preds(F)
    for f in CHAIN:
        for t in CHAIN:
            for u in CHAIN:
                if not legal(f, t) or not legal(t, u) or (f in FLOATS) + (t in FLOATS) + (u in FLOATS) > 2:
                    continue
                W = world(F)
                leaf = W.expr("e", W.t[f])
                W.build(feature__safe_mode=W.e("SAFETY_OFF"), feature__trap_on_wrap=0, debug_info=0)
                I, out = convert(F, W, leaf, [W.t[t], W.t[u]])
                inst = "%s to %s to %s" % tuple(k[5:].lower() if k.startswith("TYPE_") else k for k in (f, t, u))
                src = ("fp", "src", f) if f in FLOATS else ("bits", tuple([("s", 0)] + [0] * 7) if f == "TYPE_BOOL" else tuple(("s", i) for i in range(64 if f == "ptr" else BITS[f])))
                want = canon(step(step(src, f, t), t, u))
                if not out:
                    Rep.ob("conversion-chain", inst, False, "cast_no_check/llvm_emit_expr", "the conversions have no lowering")
                for kind, v, ty, ety in out:
                    n = N(v)
                    got = den(n, "val", f) if v != TOP else None
                    g = canon(got)
                    if u == "TYPE_BOOL" and g and g[0] == "bits":
                        ok = g[1][0] == want[1][0] and not any(g[1][1:])
                    else:
                        ok = g == want
                    Rep.ob("conversion-chain", inst, ok, "cast_no_check/llvm_emit_expr", "emits %s" % sh(n)[:300])


# -- conversions with an aggregate on one side ------------------------------

LEAF = ("p", E("leaf"), ())


def whole(n):
    return source_is_leaf(n, LEAF)


def atfield(n, i):
    """field i of the leaf, as a value, or as the address/load of that field"""
    if not isinstance(n, tuple):
        return False
    if n[0] == "ExtractValue":
        return whole(n[1]) and n[2] == i
    if n[0] == "Load2":
        return fieldaddr(n[2], i)
    return False


def fieldaddr(n, i):
    if n == ("addr", LEAF):
        return i == 0
    if not isinstance(n, tuple):
        return False
    if n[0] == "StructGEP2":
        return n[2] == ("addr", LEAF) and n[3] == i
    if n[0] == "InBoundsGEP2" and n[2] == ("addr", LEAF):
        o = n[3]
        while isinstance(o, tuple) and o and o[0] == "const":
            o = o[1]
        return isinstance(o, tuple) and (o[0] == "LLVMOffsetOfElement" and o[3] == i or o[0] == "t" and o[1] == "LLVMOffsetOfElement" and o[2][2] == i)
    return False


def lanes(n, count, store):
    """the values put into the lanes of an aggregate, or None"""
    out = {}
    while isinstance(n, tuple) and n[0] == store:
        i = n[3]
        i = i[1] if isinstance(i, tuple) and i[0] == "const" else i
        out.setdefault(i, n[2])
        n = n[1]
    if sorted(out, key=repr) != sorted(range(count), key=repr):
        return None
    return [out[i] for i in range(count)]


def lane_of(n, i):
    if not isinstance(n, tuple):
        return False
    if n[0] in ("ExtractElement", "ExtractValue"):
        k = n[2][1] if isinstance(n[2], tuple) and n[2][0] == "const" else n[2]
        return whole(n[1]) and k == i
    return False


def c08_aggregates(F, Rep):
    preds(F)

    def nz(test):
        return lambda n, k: isinstance(n, tuple) and (n[0] == "IsNotNull" and test(n[1]) or n[0] == "icmp" and (n[1] == "NE" and isz(n[3]) and test(n[2]) or n[1] == "UGT" and isz(n[3]) and test(n[2])))

    def part(i):
        return lambda n, k: fieldaddr(n, i) if k == BEK["BE_ADDRESS"] else atfield(n, i)
    BEK = {k: F.enumconst[k] for k in ("BE_ADDRESS", "BE_VALUE", "BE_BOOLEAN")}

    def pair(second):
        return lambda n, k: (lambda l: l is not None and whole(l[0]) and second(l[1]))(lanes(n, 2, "InsertValue"))

    def splat(op):
        def f(n, k):
            l = lanes(n, 4, "InsertElement")
            return l is not None and all((whole(x) if op is None else isinstance(x, tuple) and x[0] == op and (whole(x[1]) or x[1][0] == "Trunc" and whole(x[1][1]))) for x in l)
        return f

    def copy(store):
        def f(n, k):
            if whole(n) or k == BEK["BE_ADDRESS"] and n == ("addr", LEAF):
                return True
            l = lanes(n, 4, store)
            return l is not None and all(lane_of(x, i) for i, x in enumerate(l))
        return f

    same = lambda n, k: whole(n) or k == BEK["BE_ADDRESS"] and n == ("addr", LEAF)
    tid = lambda n: n[0] in ("llvm_get_typeid",) and n[2] == ("p", ("O", "T:int"), ()) if isinstance(n, tuple) else False
    sl = lambda W: W.slice(W.t["TYPE_I32"], "int")
    usl = lambda W: W.slice(W.t["TYPE_U32"], "uint")

    def anyt(W):
        W.t["any"] = W.type("any", "TYPE_ANY")
        W.canon("type_any", W.t["any"])
        return W.t["any"]
    k = lambda n: lambda W: W.t[n]
    vec = lambda n, m: lambda W: W.vector(W.t[n], m)
    arr = lambda n, m, ln=4: lambda W: W.array(W.t[n], m, ln)
    arrp = lambda W: W.pointer(W.array(W.t["TYPE_I32"], "int", 7), "int[7]")
    conv = lambda op, store: lambda n, kk: isinstance(n, tuple) and n[0] == op and copy(store)(n[1], None)
    TABLE = [
        ("slice to bool", sl, k("TYPE_BOOL"), nz(lambda n: atfield(n, 1)), "its length is not zero"),
        ("slice to pointer", sl, k("ptr"), part(0), "its pointer"),
        ("slice to void pointer", sl, k("voidptr"), part(0), "its pointer"),
        ("any to bool", anyt, k("TYPE_BOOL"), nz(lambda n: atfield(n, 0)), "its pointer is not null"),
        ("any to pointer", anyt, k("ptr"), part(0), "its pointer"),
        ("any to void pointer", anyt, k("voidptr"), part(0), "its pointer"),
        ("pointer to any", k("ptr"), anyt, pair(tid), "the pointer and the type pointed to"),
        ("pointer to array to slice", arrp, sl, pair(lambda n: n == ("const", 7)), "the pointer and the length of the array"),
        ("pointer to array to pointer", arrp, k("ptr"), same, "the pointer"),
        ("slice to slice", sl, usl, same, "the slice itself"),
        ("int to float vector", k("TYPE_I32"), vec("TYPE_F32", "float"), splat("SIToFP"), "every lane is the converted value"),
        ("uint to double vector", k("TYPE_U32"), vec("TYPE_F64", "double"), splat("UIToFP"), "every lane is the converted value"),
        ("char to int vector", k("TYPE_U8"), vec("TYPE_I32", "int"), splat("ZExt"), "every lane is the converted value"),
        ("ichar to uint vector", k("TYPE_I8"), vec("TYPE_U32", "uint"), splat("SExt"), "every lane is the converted value"),
        ("int to int vector", k("TYPE_I32"), vec("TYPE_I32", "int"), splat(None), "every lane is the value"),
        ("bool to bool vector", k("TYPE_BOOL"), vec("TYPE_BOOL", "bool"), splat(None), "every lane is the value"),
        ("bool to int vector", k("TYPE_BOOL"), vec("TYPE_I32", "int"), splat("ZExt"), "every lane is the converted value"),
        ("vector to array", vec("TYPE_I32", "int"), arr("TYPE_I32", "int"), copy("InsertValue"), "element i is lane i"),
        ("array to vector", arr("TYPE_I32", "int"), vec("TYPE_I32", "int"), copy("InsertElement"), "lane i is element i"),
        ("array to float vector", arr("TYPE_I32", "int"), vec("TYPE_F32", "float"), conv("SIToFP", "InsertElement"), "lane i is the converted element i"),
    ]
    for name, mk, tgt, test, want in TABLE:
        for mode in ("val", "addr"):
            W = world(F)
            A, B = mk(W), tgt(W)
            leaf = W.expr("e", A)
            W.build(feature__safe_mode=W.e("SAFETY_OFF"), feature__trap_on_wrap=0, debug_info=0)
            I, out = convert(F, W, leaf, B, mode)
            Rep.fn(*[a for a, _ in I.analysed])
            inst = name + {"val": "", "addr": ", from memory"}[mode]
            if not out:
                Rep.ob("aggregate-conversion", inst, False, "cast_no_check/llvm_emit_expr", "the conversion has no lowering")
            for kind, v, ty, ety in out:
                n = N(v)
                ks = [kind] if isinstance(kind, int) else sorted(kind) if isset(kind) else [None]
                ok = v != TOP and all(test(n, x) for x in ks)
                Rep.ob("aggregate-conversion", inst, ok, "cast_no_check/llvm_emit_expr", "emits %s, expected: %s" % (sh(n)[:300], want))
                Rep.ob("conversion-type", inst, ety == B, "cast_no_check", "the converted expression has type %s" % (ety,))
