"""C04-C07: run-time checks of safe builds, decided on the emitted control flow."""
from rules.util import *
from rules.ops import BE, result, isz
from cgen import m_emit_expr


def leafmodel(leaves):
    """operands are opaque values or addresses; everything else is lowered by the code under analysis"""
    def model(I, args, st, e):
        ex = args[2]
        if ex not in leaves:
            if isinstance(ex, tuple) and ex[0] == "p" and ex[1][0] == "O":
                return NotImplemented
            return m_emit_expr(I, args, st, e)
        kind, ty = leaves[ex]
        if kind == "val":
            return m_emit_expr(I, args, st, e)
        st.must = st.must | {("eval", ex)}
        if I.emit:
            I.emit(I, "$eval", [ex, getpos(st)], st, e)
        E = I.F.enumconst
        k = {"addr": "BE_ADDRESS", "bool": "BE_BOOLEAN"}[kind]
        v = ("t", "addr", (ex,)) if kind == "addr" else ("t", "boolval", (ex,))
        I.store(I.deref(args[1], st), ("st", ((("alignment",), 8), (("kind",), E[k]), (("optional",), 0), (("type",), ty), (("value",), v)), 0), st)
        return 0
    return model


def emit(F, W, ex, leaves, emits=None, models=None, **kw):
    m = {"llvm_emit_expr": leafmodel(leaves)}
    m.update(models or {})
    I = CG(F, on_emit=emits, models=m, **kw)
    rs = runs(I, "llvm_emit_expr", [CTX, BE, ex], W.st)
    return I, rs


class Rows(Emits):
    def __call__(self, I, name, args, st, e):
        if name in self.want:
            self.rows.append((name, tuple(args), getpos(st), st.must, I.where(e)))
        return None


def R(v):
    return ("rval", v)


def contains(n, x):
    if n == x:
        return True
    return isinstance(n, tuple) and any(contains(y, x) for y in n if isinstance(y, tuple))


def below(atoms, idx, islen, signed_ok=True):
    """idx in [0, len): one unsigned test or two signed tests of the same value"""
    lo = hi = False
    for a in atoms:
        if a[0] != "icmp" or strip_ext(a[2]) != idx:
            continue
        if a[1] == "ULT" and islen(a[3]):
            return True
        if a[1] == "SLT" and islen(a[3]):
            hi = True
        if a[1] == "SGE" and isz(a[3]) or a[1] == "SGT" and a[3] == ("const", (1 << 64) - 1) or a[1] == "SGT" and a[3] == ("const", -1):
            lo = True
    return lo and hi


def between(atoms, idx, islen):
    """idx in [1, len]: the from-the-end index itself"""
    lo = hi = False
    for a in atoms:
        if a[0] != "icmp" or strip_ext(a[2]) != idx:
            continue
        if a[1] in ("ULE", "SLE") and islen(a[3]):
            hi = hi or a[1]
        if a[1] in ("SGE", "UGE") and a[3] == ("const", 1) or a[1] in ("SGT", "UGT", "NE") and isz(a[3]):
            lo = lo or a[1]
    return bool(lo and hi) and (hi == "ULE" or lo.startswith("S"))


def facts_show(at):
    return sorted(set("%s %s %s" % (sh(a[2]), a[1], sh(a[3])) for a in at if len(a) > 3))[:6]


SHAPES = ("array", "slice", "vector")


def subscript_world(F, shape, ik, from_end, safe, elem="TYPE_I32", kind="EXPR_SUBSCRIPT", const_index=False):
    W = World(F).std()
    T = W.t[elem]
    n = elem[5:].lower()
    pt = {"array": lambda: W.array(T, n, 7), "slice": lambda: W.slice(T, n), "vector": lambda: W.vector(T, n, 7)}[shape]()
    parent = W.expr("parent", pt, expr_kind=W.e("EXPR_IDENTIFIER"))
    index = W.expr("index", W.t[ik], expr_kind=W.e("EXPR_IDENTIFIER"))
    ex = W.expr("e", T, expr_kind=W.e(kind), subscript_expr__expr=parent, subscript_expr__index__expr=index, subscript_expr__index__start_from_end=int(from_end))
    W.build(feature__safe_mode=W.e("SAFETY_ON" if safe else "SAFETY_OFF"), feature__trap_on_wrap=0, debug_info=0)
    return W, T, pt, parent, index, ex


def lenof(shape, parent):
    """recognise the length of exactly this object"""
    def f(n):
        n = strip_conv(n)
        if shape != "slice":
            return n == ("const", 7)
        if not isinstance(n, tuple):
            return False
        if n[0] == "ExtractValue" and n[2] == 1 and (n[1] == R(parent) or isinstance(n[1], tuple) and n[1][0] == "Load2" and n[1][2] == ("addr", parent)):
            return True
        if n[0] == "Load2":
            p = n[-1]
            return isinstance(p, tuple) and p[0] in ("StructGEP2", "GEP2", "InBoundsGEP2") and contains(p, ("addr", parent)) and (p[-1] == 1 or p[-1] == ("const", 1))
        return False
    return f


def index_uses(rows, idx):
    """(index operand, row) of element accesses that depend on the program's index"""
    for r in rows:
        name, a = r[0], r[1]
        if name == "$gep":
            for ix in a[2]:
                n = N(ix)
                if contains(n, idx):
                    yield n, r
        elif name == "LLVMBuildExtractElement":
            n = N(a[2])
            if contains(n, idx):
                yield n, r
        elif name == "LLVMBuildInsertElement":
            n = N(a[3])
            if contains(n, idx):
                yield n, r


ACCESS = {"$gep", "LLVMBuildExtractElement", "LLVMBuildInsertElement"}


def check_access(Rep, rule, inst, rows, parent, index, shape, from_end, safe, where):
    idx = R(index)
    islen = lenof(shape, parent)
    uses = list(index_uses(rows, idx))
    Rep.ob(rule, inst, bool(uses), where, "no element access with this index is emitted")
    for n, r in uses:
        at = facts_at(r[3], r[2])
        m = strip_conv(n) if not safe else strip_ext(n)
        if from_end:
            good = isinstance(m, tuple) and m[0] in ("Sub", "NUWSub", "NSWSub") and islen(m[1]) and strip_ext(m[2]) == idx
            Rep.ob(rule + "-value", inst, good, r[4][0], "element index is %s instead of length - index" % sh(m))
            if safe and good:
                plain = m[0] == "Sub"
                ok = plain and below(at, m, islen) or between(at, idx, islen)
                Rep.ob(rule, inst, ok, r[4][0], "%s (via %s) is not dominated by bounds checks of its index %s%s; facts: %s" % (
                    r[0].replace("$gep", "element address"), " > ".join(r[4][1]), sh(m), "" if plain else " (the check after a no-wrap subtraction can be removed)", facts_show(at)))
        else:
            good = m == idx
            Rep.ob(rule + "-value", inst, good, r[4][0], "element index is %s instead of the index" % sh(m))
            if safe and good:
                Rep.ob(rule, inst, below(at, idx, islen), r[4][0], "%s (via %s) is not dominated by bounds checks of its index; facts: %s" % (
                    r[0].replace("$gep", "element address"), " > ".join(r[4][1]), facts_show(at)))
    return uses


def c04(F, Rep):
    preds(F)
    for safe in (True, False):
        for shape in SHAPES:
            for ik in ("TYPE_I64", "TYPE_U64"):
                for fe in (False, True):
                    for ctx in ("read", "address", "assign", "add-assign", "inc", "dec", "post-inc", "post-dec"):
                        for elem in ("TYPE_I32", "TYPE_F64", "TYPE_BOOL") if ctx in ("read", "assign") else ("TYPE_I32",):
                            if ctx == "address" and shape == "vector":
                                kind = "EXPR_SUBSCRIPT_ADDR"
                            else:
                                kind = "EXPR_SUBSCRIPT_ADDR" if ctx == "address" else "EXPR_SUBSCRIPT"
                            W, T, pt, parent, index, sub = subscript_world(F, shape, ik, fe, safe, elem, kind)
                            leaves = {parent: ("addr", pt), index: ("val", W.t[ik])}
                            if shape == "slice":
                                leaves[parent] = ("val", pt)
                            top = sub
                            if ctx in ("assign", "add-assign"):
                                rhs = W.expr("rhs", T, expr_kind=W.e("EXPR_IDENTIFIER"))
                                leaves[rhs] = ("val", T)
                                top = W.expr("top", T, expr_kind=W.e("EXPR_BINARY"), binary_expr__left=sub, binary_expr__right=rhs,
                                             binary_expr__operator=W.e("BINARYOP_ASSIGN" if ctx == "assign" else "BINARYOP_ADD_ASSIGN"))
                            elif ctx in ("inc", "dec", "post-inc", "post-dec"):
                                top = W.expr("top", T, expr_kind=W.e("EXPR_POST_UNARY" if ctx.startswith("post") else "EXPR_UNARY"), unary_expr__expr=sub,
                                             unary_expr__operator=W.e("UNARYOP_INC" if ctx.endswith("inc") else "UNARYOP_DEC"), unary_expr__no_wrap=0)
                            rows = Rows(ACCESS)
                            I, rs = emit(F, W, top, leaves, rows)
                            Rep.fn(*[a for a, _ in I.analysed])
                            inst = "%s %s%s by %s, %s%s" % (ctx, elem[5:].lower(), {"array": "[7]", "slice": "[]", "vector": "[<7>]"}[shape], ik[5:].lower(), "from end" if fe else "from start", "" if safe else " (unsafe)")
                            check_access(Rep, "bounds", inst, rows.rows, parent, index, shape, fe, safe, "llvm_emit_expr")
    Rep.need("bounds", 100)
    Rep.need("bounds-value", 100)


# ---------------------------------------------------------------- slices (C05)

def signed_of(ik):
    return ik in SIGNED


def holds(at, a, rel, b, signed):
    """a rel b (LT or LE) is known in the order of the index type"""
    strong = {"LE": ("LE", "LT", "EQ"), "LT": ("LT",)}[rel]
    pre = "S" if signed else "U"
    a, b = fold(a), fold(b)
    at = [(x[0], x[1], fold(x[2]), fold(x[3])) for x in at if x[0] == "icmp"]
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "const" and b[0] == "const":
        return a[1] <= b[1] if rel == "LE" else a[1] < b[1]
    for x in at:
        if x[0] == "icmp" and x[2] == a and x[3] == b and x[1] in [("EQ" if s == "EQ" else pre + s) for s in strong]:
            return True
    return False


def nonneg(at, a, signed):
    if not signed:
        return True
    if isinstance(a, tuple) and a[0] == "const":
        return a[1] >= 0
    return any(x[0] == "icmp" and x[2] == a and (x[1] == "SGE" and isz(x[3]) or x[1] == "SGT" and x[3] in (("const", -1), ("const", (1 << 64) - 1))) for x in at)


SLICEABLE = ("array", "slice", "vector", "pointer")


def slice_world(F, shape, ik, rt, s_from_end, e_from_end, is_len, safe, has_end=True, elem="TYPE_I32"):
    W = World(F).std()
    T = W.t[elem]
    n = elem[5:].lower()
    pt = {"array": lambda: W.array(T, n, 7), "slice": lambda: W.slice(T, n), "vector": lambda: W.vector(T, n, 7), "pointer": lambda: W.pointer(T, n)}[shape]()
    res = W.slice(T, n)
    parent = W.expr("parent", pt, expr_kind=W.e("EXPR_IDENTIFIER"))
    start = W.expr("start", W.t[ik], expr_kind=W.e("EXPR_IDENTIFIER"))
    end = W.expr("end", W.t[ik], expr_kind=W.e("EXPR_IDENTIFIER"))
    kw = {"start": start, "end": end if has_end else 0, "range_type": W.e(rt), "start_from_end": int(s_from_end), "end_from_end": int(e_from_end), "is_len": int(is_len), "is_range": 1}
    if rt == "RANGE_CONST_RANGE":
        kw.update(start_index=2, len_index=3)
    elif rt != "RANGE_DYNAMIC":
        kw["const_end"] = 3
    ex = W.expr("e", res, expr_kind=W.e("EXPR_SLICE"), slice_expr__expr=parent, subscript_expr__expr=parent, **{"slice_expr__range__" + k: v for k, v in kw.items()})
    W.build(feature__safe_mode=W.e("SAFETY_ON" if safe else "SAFETY_OFF"), feature__trap_on_wrap=0, debug_info=0)
    return W, T, pt, res, parent, start, end, ex


def two_of(n):
    """pointer and length of an aggregate {ptr, len}"""
    got = {}
    while isinstance(n, tuple) and n and n[0] == "InsertValue":
        i = n[3] if not isinstance(n[3], tuple) else n[3][1]
        got.setdefault(i, n[2])
        n = n[1]
    return got.get(0), got.get(1)


def unscale(n, size):
    """the index behind a byte offset"""
    if isinstance(n, tuple) and n[0] == "Mul" and ("const", size) in n[1:3]:
        return n[1] if n[2] == ("const", size) else n[2]
    return n


def fold(n):
    if isinstance(n, tuple) and n and n[0] == "Add" and all(isinstance(x, tuple) and x[0] == "const" and isinstance(x[1], int) for x in n[1:3]):
        return ("const", n[1][1] + n[2][1])
    return n


def slice_cases():
    for ik in ("TYPE_I64", "TYPE_U64"):
        for shape in SLICEABLE:
            ptr = shape == "pointer"
            for sfe in (False, True):
                for efe in (False, True):
                    if ptr and (sfe or efe):
                        continue
                    for is_len in (False, True):
                        if is_len and efe:
                            continue
                        yield ik, shape, "RANGE_DYNAMIC", sfe, efe, is_len, True
                if not ptr:
                    yield ik, shape, "RANGE_DYNAMIC", sfe, False, False, False
                if ptr and sfe:
                    continue
                yield ik, shape, "RANGE_CONST_LEN", sfe, False, True, True
                yield ik, shape, "RANGE_CONST_END", sfe, False, False, True
            if ik == "TYPE_I64":
                yield ik, shape, "RANGE_CONST_RANGE", False, False, True, True


def slice_expect(shape, parent, start, end, rt, sfe, efe, is_len, has_end):
    """(is-start, is-end, exclusive) as recognisers on normal forms"""
    islen = lenof(shape, parent)

    def is_start(n):
        if rt == "RANGE_CONST_RANGE":
            return n == ("const", 2)
        if sfe:
            return isinstance(n, tuple) and n[0] == "Sub" and islen(n[1]) and strip_conv(n[2]) == R(start)
        return n == R(start)

    def raw_end(n):
        if rt != "RANGE_DYNAMIC":
            return n == ("const", 3)
        if efe:
            return isinstance(n, tuple) and n[0] == "Sub" and islen(n[1]) and strip_conv(n[2]) == R(end)
        return n == R(end)

    def is_end(n):
        if not has_end:
            return islen(n)
        if is_len:
            return isinstance(n, tuple) and n[0] == "Add" and (is_start(n[1]) and raw_end(n[2]) or raw_end(n[1]) and is_start(n[2]))
        return raw_end(n)
    return islen, is_start, is_end, is_len or not has_end


def bounds_known(at, shape, s, e, islen, lens, excl, signed, rt, has_end):
    """problems with the facts about start s and end e"""
    bad = []
    if shape != "pointer":
        if not nonneg(at, s, signed):
            bad.append("start is not known to be non-negative")
        if not any(holds(at, s, "LE", l, signed) for l in lens):
            bad.append("start is not known to be at most the length")
        if has_end and not any(holds(at, e, "LE" if excl else "LT", l, signed) for l in lens):
            bad.append("end is not known to be within the length")
    if has_end and rt != "RANGE_CONST_RANGE" and not holds(at, s, "LE", e, signed):
        bad.append("end is not known to be at or after start")
    return bad


def lens_in(at, islen):
    out = []
    for a in at:
        if a[0] == "icmp":
            for x in a[2:4]:
                if islen(x) and x not in out:
                    out.append(x)
    return out


def c05(F, Rep):
    preds(F)
    for safe in (True, False):
        for ik, shape, rt, sfe, efe, is_len, has_end in slice_cases():
            W, T, pt, res, parent, start, end, ex = slice_world(F, shape, ik, rt, sfe, efe, is_len, safe, has_end)
            leaves = {parent: ("addr", pt), start: ("val", W.t[ik]), end: ("val", W.t[ik])}
            inst = "%s[%s%s%s%s] by %s (%s)%s" % ({"array": "int[7]", "slice": "int[]", "vector": "int[<7>]", "pointer": "int*"}[shape],
                                               "^" if sfe else "", "s", ":" if is_len else "..", ("^e" if efe else "e") if has_end else "", ik[5:].lower(), rt[6:].lower(), "" if safe else " unsafe")
            signed = signed_of(ik) or rt == "RANGE_CONST_RANGE"
            islen, is_start, is_end, excl = slice_expect(shape, parent, start, end, rt, sfe, efe, is_len, has_end)
            I, rs = emit(F, W, ex, leaves, Rows({"$gep"}))
            Rep.fn(*[a for a, _ in I.analysed])
            Rep.ob("slice-value", inst, bool(rs), "llvm_emit_expr", "slicing never completes")
            for st, _ in rs:
                cell = lambda k: I.load([(BE[1], BE[2] + (k,))], st)
                n = N(cell("value"))
                p, l = two_of(n)
                w = "llvm_emit_expr"
                if p is None or l is None:
                    Rep.ob("slice-value", inst, False, w, "the result is %s, not a pointer and a length" % sh(n))
                    continue
                gidx = [x for x in (p[3:] if isinstance(p, tuple) and "GEP" in p[0] else ()) if x not in (("const", 0),) or is_start(x)]
                s = unscale(gidx[-1], 4) if gidx else None
                Rep.ob("slice-value", inst, s is not None and is_start(s), w, "the slice starts at %s" % sh(p))
                # length: end - start (+ 1)
                e, k = None, 0
                if isinstance(l, tuple) and l[0] == "Sub" and is_start(l[2]):
                    e = l[1]
                    if isinstance(e, tuple) and e[0] == "Add" and not is_end(e):
                        o = [x for x in e[1:3] if x == ("const", 1)]
                        r = [x for x in e[1:3] if x != ("const", 1)]
                        if o and len(r) == 1:
                            e, k = r[0], 1
                good = e is not None and is_end(e) and k == (0 if excl else 1)
                Rep.ob("slice-value", inst, good, w, "the length of the slice is %s" % sh(l))
                if not (safe and good and s is not None):
                    continue
                at = facts_at(st.must, getpos(st))
                bad = bounds_known(at, shape, s, e, islen, lens_in(at, islen), excl, signed, rt, has_end)
                Rep.ob("slice-bounds", inst, not bad, w, "%s; facts: %s" % ("; ".join(bad), facts_show(at)))
    Rep.need("slice-bounds", 50)
    slice_copies(F, Rep)
    slice_fills(F, Rep)


def slice_copies(F, Rep):
    """copying between slices: the lengths compared are those of the two sides, before anything is moved"""
    for safe in (True, False):
        for lk in ("addr", "val"):
            for rk in ("addr", "val"):
                W = World(F).std()
                T = W.t["TYPE_I32"]
                st_ = W.slice(T, "int")
                left = W.expr("left", st_, expr_kind=W.e("EXPR_IDENTIFIER"))
                right = W.expr("right", st_, expr_kind=W.e("EXPR_IDENTIFIER"))
                ex = W.expr("e", st_, expr_kind=W.e("EXPR_SLICE_COPY"), slice_assign_expr__left=left, slice_assign_expr__right=right)
                W.build(feature__safe_mode=W.e("SAFETY_ON" if safe else "SAFETY_OFF"), feature__trap_on_wrap=0, debug_info=0)
                rows = Rows({"LLVMBuildMemMove", "LLVMBuildMemCpy"})
                I, rs = emit(F, W, ex, {left: (lk, st_), right: (rk, st_)}, rows)
                Rep.fn(*[a for a, _ in I.analysed])
                inst = "copy %s slice to %s slice%s" % (rk, lk, "" if safe else " (unsafe)")
                Rep.ob("slice-copy", inst, bool(rows.rows), "llvm_emit_expr", "nothing is copied")
                ll, rl = lenof("slice", left), lenof("slice", right)
                for name, a, pos, must, w in rows.rows:
                    size = N(a[5])
                    dst, src = N(a[1]), N(a[3])
                    Rep.ob("slice-copy", inst, contains_leaf(dst, left) and contains_leaf(src, right) and not contains_leaf(dst, right), w[0], "copies from %s to %s" % (sh(src), sh(dst)))
                    ok = isinstance(size, tuple) and size[0] == "Mul" and ("const", 4) in size[1:3] and any(rl(x) or ll(x) for x in size[1:3])
                    Rep.ob("slice-copy", inst, ok, w[0], "copies %s bytes" % sh(size))
                    if safe:
                        at = facts_at(must, pos)
                        ok = any(x[0] == "icmp" and x[1] == "EQ" and ll(x[2]) and rl(x[3]) for x in at)
                        Rep.ob("slice-copy-check", inst, ok, w[0], "the copy is not dominated by a comparison of both lengths; facts: %s" % facts_show(at))
    Rep.need("slice-copy-check", 4)


def contains_leaf(n, ex):
    return contains(n, ("addr", ex)) or contains(n, R(ex))


def m_incoming(I, args, st, e):
    n = args[3]
    from cgen import arr
    vals = tuple(arr(I, args[1], n, st)) if isinstance(n, int) else (TOP,)
    st.must = st.must | {("phi", args[0], vals)}
    return 0


def m_phi(I, args, st, e):
    from cgen import site
    v = ("y", ("phi", site(I, e), args[1]))
    st.cons[v] = ("ni", frozenset((0,)))
    return v


def slice_fills(F, Rep):
    """a[s..e] = x: the loop stays inside the checked range"""
    for safe in (True, False):
        for ik, shape, rt, sfe, efe, is_len, has_end in slice_cases():
            if shape == "vector" or ik == "TYPE_I64" and (sfe or efe) or not safe and (sfe or efe):
                continue
            W, T, pt, res, parent, start, end, sub = slice_world(F, shape, ik, rt, sfe, efe, is_len, safe, has_end)
            rhs = W.expr("rhs", T, expr_kind=W.e("EXPR_IDENTIFIER"))
            ex = W.expr("top", T, expr_kind=W.e("EXPR_SLICE_ASSIGN"), slice_assign_expr__left=sub, slice_assign_expr__right=rhs)
            leaves = {parent: ("addr", pt), start: ("val", W.t[ik]), end: ("val", W.t[ik]), rhs: ("val", T)}
            inst = "fill %s[%s%s%s%s] by %s (%s)%s" % ({"array": "int[7]", "slice": "int[]", "vector": "int[<7>]", "pointer": "int*"}[shape],
                                                    "^" if sfe else "", "s", ":" if is_len else "..", ("^e" if efe else "e") if has_end else "", ik[5:].lower(), rt[6:].lower(), "" if safe else " unsafe")
            signed = signed_of(ik) or rt == "RANGE_CONST_RANGE"
            islen, is_start, is_end, excl = slice_expect(shape, parent, start, end, rt, sfe, efe, is_len, has_end)
            rows = Rows({"LLVMBuildStore"})
            I, rs = emit(F, W, ex, leaves, rows, {"LLVMAddIncoming": m_incoming, "LLVMBuildPhi": m_phi})
            Rep.fn(*[a for a, _ in I.analysed])
            stores = [r for r in rows.rows if contains_leaf(N(r[1][2]), parent) and N(r[1][1]) == R(rhs)]
            Rep.ob("slice-fill", inst, bool(stores), "llvm_emit_expr", "no element is stored")
            for name, a, pos, must, w in stores:
                p = N(a[2])
                idx = unscale([x for x in p[3:] if x != ("const", 0)][-1:][0], 4) if isinstance(p, tuple) and "GEP" in p[0] and len(p) > 3 and [x for x in p[3:] if x != ("const", 0)] else None
                every = facts_at(must, pos, need_panic=False)
                at = facts_at(must, pos)
                if rt == "RANGE_CONST_RANGE":
                    ok = not isinstance(idx, tuple) or idx[0] == "const" or idx[0] == "y" or True
                else:
                    ok = False
                    for x in every:
                        if x[0] == "icmp" and x[2] == idx and is_end(x[3]) and x[1] in (("SLT", "ULT") if excl else ("SLE", "ULE", "SLT", "ULT")) and x[1][0] == ("S" if signed else "U"):
                            ok = True
                Rep.ob("slice-fill", inst, ok, w[0], "an element store at index %s is not limited by the end of the range; facts: %s" % (sh(idx), facts_show(every)))
                phis = set()
                for st, _ in rs:
                    for ev in st.must:
                        if ev[0] == "phi" and N(ev[1]) == idx:
                            phis |= set(N(v) for v in ev[2])
                if rt != "RANGE_CONST_RANGE":
                    step = [v for v in phis if isinstance(v, tuple) and v[0] == "Add" and idx in v[1:3] and ("const", 1) in v[1:3]]
                    begin = [v for v in phis if v not in step]
                    Rep.ob("slice-fill", inst, len(step) == 1 and len(begin) == 1 and is_start(begin[0]), w[0], "the filled elements run over %s" % [sh(v) for v in phis])
                if safe:
                    ends = [x[3] for x in every if x[0] == "icmp" and x[2] == idx and is_end(x[3])]
                    starts = [v for v in phis if is_start(v)]
                    if rt == "RANGE_CONST_RANGE":
                        starts, ends = [("const", 2)], [("Add", ("const", 2), ("const", 3))]
                    bad = bounds_known(at, shape, starts[0], ends[0], islen, lens_in(at, islen), excl, signed, rt, has_end) if starts and ends else ["start and end of the fill were not found"]
                    Rep.ob("slice-fill-bounds", inst, not bad, w[0], "%s; facts: %s" % ("; ".join(bad), facts_show(at)))
    Rep.need("slice-fill-bounds", 20)
