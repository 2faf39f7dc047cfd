"""C09: constants that can never be right are rejected.  The analyser is
interpreted from its expression entry on operators, index and slice
expressions with constant parts at every boundary; whether it can accept is
compared with whether the written operation can be valid."""
from rules.util import *
from rules.fold import world, models, analyse, cint, cfloat, cconst, binary, load, result, folded_int, Cfg, SEMA, tn, PROMOTED
from rules.implicit import ident, rng
from rules.traps import vec

ERR = "sema_analyse_expr"


def context(W):
    W.st.setcell(("O", "semactx"), ("call_env", "in_no_eval"), 0)
    W.st.setcell(("O", "semactx"), ("call_env", "in_other"), 0)


def local(W, name, type):
    """a run-time local variable"""
    p = ident(W, name, type)
    d = ("O", "D:" + name)
    for f in (("var", "copy_const"), ("var", "init_expr"), ("var", "is_read"), ("var", "is_written"), ("in_init",), ("is_extern",)):
        W.st.setcell(d, f, 0)
    return p


def scalars(F, Rep):
    """division, remainder and shifts by a constant"""
    for k in sorted(INTS):
        for op in ("DIV", "MOD"):
            for asg in (0, 1):
                for v in sorted({0, 1, 2, -1, rng(k)[0], rng(k)[1]}):
                    lo, hi = rng(k)
                    if not lo <= v <= hi:
                        continue
                    verdict(F, Rep, "zero-divisor", op, k, asg, lambda W: cint(W, "b", W.t[k], k, v), "%d" % v, v != 0)
        for op in ("SHL", "SHR"):
            for asg in (0, 1):
                bits = BITS[k] if asg else BITS[PROMOTED(k)]
                for r in (k, "TYPE_I128", "TYPE_U128", "TYPE_I32"):
                    lo, hi = rng(r)
                    for v in sorted({0, 1, bits - 1, bits, bits + 1, -1, -bits, 1 << 31, 1 << 32, 1 << 64, (1 << 64) + 1, -(1 << 64), hi, lo}):
                        if lo <= v <= hi:
                            verdict(F, Rep, "shift-amount", op, k, asg, lambda W: cint(W, "b", W.t[r], r, v), "%d of type %s" % (v, tn(r)), 0 <= v < bits)
    for k in sorted(FLOATS):
        for op, asg in (("MOD", 0), ("DIV", 1)):
            for v in (0, 1):
                def fl(W):
                    x = cfloat(W, "b", W.t[k], k)
                    W.st.setcell(x[1], ("const_expr", "fxx", "f"), ("f", repr(float(v))))
                    return x
                verdict(F, Rep, "zero-divisor", op, k, asg, fl, "%.1f" % v, v != 0)


def verdict(F, Rep, rule, op, k, asg, mk, what, valid):
    for left in ("a run-time", "a constant") if not asg else ("a run-time",):
        W = world(F)
        context(W)
        r = mk(W)
        l = local(W, "a", W.t[k]) if left == "a run-time" else cint(W, "a", W.t[k], k, 1) if k in INTS else cfloat(W, "a", W.t[k], k)
        ex = binary(W, op + ("_ASSIGN" if asg else ""), l, r)
        I, out = analyse(F, W, ex, Cfg())
        Rep.fn(*[q for q, _ in I.analysed])
        inst = "%s%s of %s %s by the constant %s" % (op.lower(), " assignment" if asg else "", left, tn(k), what)
        Rep.ob(rule, inst, bool(out) == valid, ERR, ("is accepted" if out else "is rejected"))


N = 4


def text(W, name, ck, n):
    T = W.slice(W.t["TYPE_U8"], "char")
    b = ("O", "TXT:" + name)
    for i in range(n):
        W.st.setcell(b, (i,), 97 + i)
    return cconst(W, name, T, ck, bytes__ptr=("p", b, ()), bytes__len=n)


def initvalue(W, name, i, k="TYPE_I32"):
    b = ("O", "CI:%s:%d" % (name, i))
    W.st.setcell(b, ("kind",), W.e("CONST_INIT_VALUE"))
    W.st.setcell(b, ("type",), W.t[k])
    W.st.setcell(b, ("init_value",), cint(W, "%s%d" % (name, i), W.t[k], k, 10 + i))
    return ("p", b, ())


def initializer(W, name, T, form, n):
    """a constant list: full, with some elements left out, or zero"""
    b = ("O", "CI:" + name)
    W.st.setcell(b, ("type",), T)
    if form == "full":
        W.st.setcell(b, ("kind",), W.e("CONST_INIT_ARRAY_FULL"))
        W.st.setcell(b, ("init_array_full",), vec(W, name, [initvalue(W, name, i) for i in range(n)]))
    elif form == "sparse":
        items = []
        for i in range(1, n, 2):
            e = ("O", "CA:%s:%d" % (name, i))
            W.st.setcell(e, ("kind",), W.e("CONST_INIT_ARRAY_VALUE"))
            W.st.setcell(e, ("init_array_value", "index"), i)
            W.st.setcell(e, ("init_array_value", "element"), initvalue(W, name, i))
            items.append(("p", e, ()))
        W.st.setcell(b, ("kind",), W.e("CONST_INIT_ARRAY"))
        W.st.setcell(b, ("init_array", "elements"), vec(W, name, items))
    else:
        W.st.setcell(b, ("kind",), W.e("CONST_INIT_ZERO"))
    return ("p", b, ())


def target(W, kind):
    """what is indexed, the number of its elements (None: not known), whether it can be written"""
    el = W.t["TYPE_I32"]
    if kind == "array":
        return local(W, "a", W.array(el, "int", N)), N, True
    if kind == "vector":
        return local(W, "a", W.vector(el, "int", N)), N, True
    if kind == "slice":
        return local(W, "a", W.slice(el, "int")), None, True
    if kind == "pointer":
        return local(W, "a", W.pointer(el, "int")), None, True
    if kind in ("string", "bytes"):
        return text(W, "a", "CONST_" + kind.upper(), N), N, False
    T = W.array(el, "int", N)
    return cconst(W, "a", T, "CONST_INITIALIZER", initializer=initializer(W, "a", T, kind, N)), N, False


TARGETS = ("array", "vector", "slice", "pointer", "string", "bytes", "full", "sparse", "zero")


def subscript(W, base, index, back, name="e"):
    return W.expr(name, 0, expr_kind=W.e("EXPR_SUBSCRIPT"), resolve_status=W.e("RESOLVE_NOT_DONE"), subscript_expr__expr=base, subscript_expr__index__expr=index, subscript_expr__index__start_from_end=back)


def usage(W, use, ex):
    if use == "read":
        return ex
    if use == "address":
        return W.expr("top", 0, expr_kind=W.e("EXPR_UNARY"), resolve_status=W.e("RESOLVE_NOT_DONE"), unary_expr__operator=W.e("UNARYOP_ADDR"), unary_expr__expr=ex)
    if use in ("increment", "decrement"):
        return W.expr("top", 0, expr_kind=W.e("EXPR_UNARY" if use == "increment" else "EXPR_POST_UNARY"), resolve_status=W.e("RESOLVE_NOT_DONE"), unary_expr__operator=W.e("UNARYOP_INC" if use == "increment" else "UNARYOP_DEC"),
                      unary_expr__expr=ex)
    r = cint(W, "rhs", W.t["TYPE_I32"], "TYPE_I32", 1)
    return W.expr("top", 0, expr_kind=W.e("EXPR_BINARY"), resolve_status=W.e("RESOLVE_NOT_DONE"), binary_expr__operator=W.e("BINARYOP_ASSIGN" if use == "assignment" else "BINARYOP_ADD_ASSIGN"),
                  binary_expr__left=ex, binary_expr__right=r)


USES = ("read", "address", "assignment", "compound assignment", "increment", "decrement")


def valid(kind, n, v, back):
    """None: either answer is right"""
    if kind == "pointer":
        return False if back else True if -(1 << 63) <= v < 1 << 63 else None
    if v < 0:
        return False
    if n is None:
        return False if back and v == 0 else True if v < 1 << 31 else None if v >= 1 << 63 else True
    return 1 <= v <= n if back else v < n


def indexing(F, Rep):
    big = [1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 1 << 127]
    for kind in TARGETS:
        for use in USES:
            for back in (0, 1):
                for k in ("TYPE_I32", "TYPE_U8", "TYPE_I64", "TYPE_U64", "TYPE_I128", "TYPE_U128"):
                    lo, hi = rng(k)
                    vals = {0, 1, N - 1, N, N + 1, -1, -N} | {s * b for b in big for s in (1, -1)} | {lo, hi}
                    if use not in ("read", "assignment") and k not in ("TYPE_I32", "TYPE_I128"):
                        continue
                    for v in sorted(vals):
                        if not lo <= v <= hi:
                            continue
                        W = world(F)
                        context(W)
                        base, n, writable = target(W, kind)
                        if not writable and use != "read":
                            continue
                        ok = valid(kind, n, v, back)
                        if ok and BITS[k] == 128:
                            ok = None
                        if ok is None:
                            continue
                        ex = usage(W, use, subscript(W, base, cint(W, "i", W.t[k], k, v), back))
                        I, out = analyse(F, W, ex, Cfg())
                        Rep.fn(*[q for q, _ in I.analysed])
                        Rep.ob("index", "%s of element %s%d (%s) of a %s" % (use, "^" if back else "", v, tn(k), kind), bool(out) == ok, ERR, "is accepted" if out else "is rejected")


def pick(v):
    """a type that holds the constant"""
    for k in ("TYPE_I32", "TYPE_I64", "TYPE_U64", "TYPE_I128"):
        lo, hi = rng(k)
        if lo <= v <= hi:
            return k


def slicevalid(kind, n, s, sb, e, eb, islen):
    """s, e: constant bounds (None: not constant, "open": absent); None: either answer is right"""
    op = e == "open"
    ev = e if isinstance(e, int) else None
    if kind == "pointer":
        if op or sb or eb:
            return False
        if not islen and any(isinstance(v, int) and abs(v) >= 1 << 31 for v in (s, ev)):
            return None
        if islen and ev is not None and ev < 0 or not islen and s is not None and ev is not None and ev < s - 1:
            return False
        return True if islen or s is None or ev is None or ev >= s else None
    if s is not None and s < 0 or ev is not None and ev < 0 and (ev != -1 or eb or islen):
        return False
    if n is None:
        if ev is not None and ev >= 1 << 31 and s is not None and not sb:
            return None
        if s is not None and ev is not None and not sb and not eb and not islen:
            return False if ev < s - 1 else True if ev >= s else None
        return None if s == 0 and sb or ev == 0 and eb or ev == -1 or sb and eb else True
    sa = None if s is None else n - s if sb else s
    ea = n - 1 if op else None if ev is None else n - ev if eb else ev
    if sa is not None and not 0 <= sa <= n:
        return False
    if ea is not None and islen and (ea < 0 or (sa or 0) + ea > n):
        return False
    if ea is not None and not islen and (ea >= n or ea < -1 or sa is not None and ea < sa - 1):
        return False
    if sa == n or ea == -1 or ea is not None and not islen and sa is not None and ea < sa:
        return None
    return True


STARTS = (0, 1, N - 1, N, N + 1, -1, 1 << 31, 1 << 32, (1 << 32) + 1, -(1 << 32), (1 << 63) - 1, 1 << 63, 1 << 64, None)


def slices(F, Rep):
    for kind in ("array", "slice", "pointer", "vector", "string", "full"):
        for form in ("..", ":", "open"):
            for sb in (0, 1):
                for s in STARTS:
                    for eb in (0, 1) if form != "open" else (0,):
                        for e in STARTS if form != "open" else ("open",):
                            if s is None and e is None:
                                continue
                            if kind in ("vector", "string", "full") and any(isinstance(v, int) and abs(v) > N + 1 for v in (s, e)):
                                continue
                            oneslice(F, Rep, kind, form, s, sb, e, eb)


def oneslice(F, Rep, kind, form, s, sb, e, eb):
    W = world(F)
    context(W)
    base, n, _ = target(W, kind)
    ok = slicevalid(kind, n, s, sb, e, eb, form == ":")
    if ok and any(isinstance(v, int) and not -(1 << 31) <= v < 1 << 31 for v in (s, e)):
        ok = None
    if ok is None:
        return
    mk = lambda nm, v: local(W, nm, W.t["TYPE_I32"]) if v is None else cint(W, nm, W.t[pick(v)], pick(v), v)
    ex = W.expr("e", 0, expr_kind=W.e("EXPR_SLICE"), resolve_status=W.e("RESOLVE_NOT_DONE"), slice_expr__expr=base, slice_expr__range__status=W.e("RESOLVE_NOT_DONE"), slice_expr__range__range_type=W.e("RANGE_DYNAMIC"),
                slice_expr__range__start=mk("s", s), slice_expr__range__end=0 if e == "open" else mk("t", e), slice_expr__range__start_from_end=sb, slice_expr__range__end_from_end=eb,
                slice_expr__range__is_len=int(form == ":"), slice_expr__range__is_range=1, slice_expr__range__is_optional=0)
    I, out = analyse(F, W, ex, Cfg())
    Rep.fn(*[q for q, _ in I.analysed])
    w = lambda v, b: ("^" if b else "") + ("x" if v is None else "" if v == "open" else str(v))
    inst = "%s[%s%s%s]" % (kind, w(s, sb), ".." if form == "open" else form, w(e, eb))
    bad = [] if bool(out) == ok else ["is accepted" if out else "is rejected"]
    if ok and n is not None:
        sa = None if s is None else n - s if sb else s
        ea = n - 1 if e == "open" else None if e is None else n - e if eb else e
        ln = None if ea is None else ea if form == ":" else None if sa is None else ea - sa + 1
        for st in out:
            if load(I, st, ex, "expr_kind") != F.enumconst["EXPR_SLICE"]:
                continue
            rt = load(I, st, ex, "slice_expr", "range", "range_type")
            g = lambda f: load(I, st, ex, "slice_expr", "range", f)
            if rt == F.enumconst["RANGE_CONST_RANGE"]:
                if g("start_index") != sa or g("len_index") != ln:
                    bad.append("becomes start %s, length %s" % (show(g("start_index")), show(g("len_index"))))
            elif rt == F.enumconst["RANGE_CONST_LEN"]:
                if g("const_end") != ln:
                    bad.append("becomes length %s" % show(g("const_end")))
            elif rt == F.enumconst["RANGE_CONST_END"]:
                if g("const_end") != ea or form == ":":
                    bad.append("becomes end %s" % show(g("const_end")))
    Rep.ob("slice", inst, not bad, ERR, "; ".join(bad) or ("is accepted" if ok else "is rejected"))


def folded_elements(F, Rep):
    """C10: reading an element of a constant gives that element"""
    for kind in ("string", "bytes", "full", "sparse", "zero"):
        for back in (0, 1):
            for i in range(N):
                for k in ("TYPE_I32", "TYPE_U64"):
                    W = world(F)
                    context(W)
                    base, n, _ = target(W, kind)
                    ex = subscript(W, base, cint(W, "i", W.t[k], k, N - i if back else i), back)
                    I, out = analyse(F, W, ex, Cfg())
                    Rep.fn(*[q for q, _ in I.analysed])
                    want = 97 + i if kind in ("string", "bytes") else 0 if kind == "zero" or kind == "sparse" and i % 2 == 0 else 10 + i
                    bad = [] if out else ["no accepting path"]
                    for st in out:
                        b = result(F, I, st, ex, "CONST_INTEGER")
                        if not b and folded_int(I, st, ex) != want:
                            b.append("is %s, not %s" % (show(folded_int(I, st, ex)), want))
                        el = W.t["TYPE_U8" if kind in ("string", "bytes") else "TYPE_I32"]
                        if not b and load(I, st, ex, "type") != el:
                            b.append("has type %s" % show(load(I, st, ex, "type")))
                        bad += b
                    Rep.ob("element-fold", "element %s%d of a constant (%s)" % ("^" if back else "", N - i if back else i, kind), not bad, ERR, "; ".join(sorted(set(bad))) or "is that element")


def c09(F, Rep):
    preds(F)
    scalars(F, Rep)
    indexing(F, Rep)
    slices(F, Rep)
