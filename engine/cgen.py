"""Abstract interpretation of the LLVM code generator: models of the LLVM C API
(block structure of the emitted code) and abstract compiler types/values."""
from absint import Interp, State, TOP, term, mkset, elems, isset
from facts import AnalysisBroken

SCALARS = ["TYPE_BOOL", "TYPE_I8", "TYPE_I16", "TYPE_I32", "TYPE_I64", "TYPE_I128", "TYPE_U8", "TYPE_U16", "TYPE_U32",
           "TYPE_U64", "TYPE_U128", "TYPE_F16", "TYPE_BF16", "TYPE_F32", "TYPE_F64", "TYPE_F128"]
SIGNED = {"TYPE_I8", "TYPE_I16", "TYPE_I32", "TYPE_I64", "TYPE_I128"}
UNSIGNED = {"TYPE_U8", "TYPE_U16", "TYPE_U32", "TYPE_U64", "TYPE_U128"}
FLOATS = {"TYPE_F16", "TYPE_BF16", "TYPE_F32", "TYPE_F64", "TYPE_F128"}
BITS = {"TYPE_BOOL": 8, "TYPE_I8": 8, "TYPE_I16": 16, "TYPE_I32": 32, "TYPE_I64": 64, "TYPE_I128": 128, "TYPE_U8": 8,
        "TYPE_U16": 16, "TYPE_U32": 32, "TYPE_U64": 64, "TYPE_U128": 128, "TYPE_F16": 16, "TYPE_BF16": 16, "TYPE_F32": 32,
        "TYPE_F64": 64, "TYPE_F128": 128}

VECS = {}
KINDS = {}      # abstract type object -> kind

CTX = ("p", ("O", "ctx"), ())
VAL = lambda n: ("y", ("V", n))


class World:
    """initial abstract state: known types, known build configuration"""

    def __init__(self, F):
        self.F = F
        self.st = State()
        self.enum = F.enumconst

    def e(self, n):
        if n not in self.enum:
            raise AnalysisBroken("enumerator %s not found" % n)
        return self.enum[n]

    def set(self, base, **kw):
        for k, v in kw.items():
            self.st.setcell(base, tuple(k.split("__")), v)

    def type(self, name, kind, **kw):
        base = ("O", "T:" + name)
        p = ("p", base, ())
        KINDS[base] = kind
        self.st.setcell(base, ("type_kind",), self.e(kind))
        self.st.setcell(base, ("canonical",), p)
        self.st.setcell(base, ("name",), ("s", name))
        for k, v in kw.items():
            self.st.setcell(base, tuple(k.split("__")), v)
        if kind in BITS:
            b = BITS[kind]
            self.st.setcell(base, ("builtin", "bitsize"), b)
            self.st.setcell(base, ("builtin", "bytesize"), b // 8)
            self.st.setcell(base, ("builtin", "abi_alignment"), b // 8)
        return p

    def scalar(self, kind):
        n = kind[5:].lower()
        return self.type(n, kind)

    def vector(self, elem, elem_name, ln=4):
        VECS[("O", "T:" + elem_name + "[<%d>]" % ln)] = (elem, ln)
        return self.type(elem_name + "[<%d>]" % ln, "TYPE_VECTOR", array__base=elem, array__len=ln)

    def array(self, elem, elem_name, ln=4):
        return self.type(elem_name + "[%d]" % ln, "TYPE_ARRAY", array__base=elem, array__len=ln)

    def slice(self, elem, elem_name):
        return self.type(elem_name + "[]", "TYPE_SLICE", array__base=elem)

    def pointer(self, to, to_name):
        return self.type(to_name + "*", "TYPE_POINTER", pointer=to)

    def expr(self, name, type, **kw):
        base = ("O", "E:" + name)
        p = ("p", base, ())
        self.st.setcell(base, ("type",), type)
        for k, v in kw.items():
            self.st.setcell(base, tuple(k.split("__")), v)
        return p

    def build(self, **kw):
        for k, v in kw.items():
            self.st.setcell(("G", "compiler"), ("build",) + tuple(k.split("__")), v)

    def ctx(self, **kw):
        for k, v in kw.items():
            self.st.setcell(("O", "ctx"), tuple(k.split("__")), v)

    def std(self):
        """all builtin scalar types, bound to their canonical globals"""
        self.t = {}
        names = {"TYPE_BOOL": "bool", "TYPE_I8": "ichar", "TYPE_I16": "short", "TYPE_I32": "int", "TYPE_I64": "long", "TYPE_I128": "i128",
                 "TYPE_U8": "char", "TYPE_U16": "ushort", "TYPE_U32": "uint", "TYPE_U64": "ulong", "TYPE_U128": "u128", "TYPE_F16": "float16",
                 "TYPE_BF16": "bfloat", "TYPE_F32": "float", "TYPE_F64": "double", "TYPE_F128": "f128"}
        for k, n in names.items():
            p = self.type(n, k)
            self.t[k] = p
            if "type_" + n not in self.F.gvars:
                raise AnalysisBroken("canonical type global type_%s not found" % n)
            self.canon("type_" + n, p)
        self.canon("type_usz", self.t["TYPE_U64"])
        self.canon("type_isz", self.t["TYPE_I64"])
        bb = ("y", ("bb", "entry", ()))
        self.st.cons[bb] = ("ni", frozenset((0,)))
        mark(self.st, USED, bb)
        mark(self.st, INST, bb)
        self.ctx(bool_type=I1, current_block=bb, first_block=bb, builder=("y", "builder"), global_builder=("y", "global_builder"))
        self.st.cons[("y", "builder")] = self.st.cons[("y", "global_builder")] = ("ni", frozenset((0,)))
        self.st.setcell(("G", "$pos"), (), bb)
        return self

    def canon(self, glob, p):
        """bind a canonical type global (type_bool, ...)"""
        self.st.setcell(("G", glob), (), p)


def ident(i):
    def m(I, args, st, e):
        return args[i]
    return m


POS = ("G", "$pos")


def getpos(st):
    d = st.mem.get(POS)
    return d.get((), TOP) if d else TOP


BUILDERS = {("y", "builder"), ("y", "global_builder")}


class CG(Interp):
    """interpreter with models for LLVM block structure"""

    def __init__(self, F, on_emit=None, models=None, **kw):
        m = dict(BASE_MODELS)
        m.update(models or {})
        kw.setdefault("opaque", ())
        kw["opaque"] = set(kw["opaque"]) | OPAQUE
        self.kindname = {v: n for n, v in F.enums["TypeKind"]["vals"] if not n.endswith(("_FIRST", "_LAST", "_ARRAYLIKE"))}
        super().__init__(F, models=m, on_call=self._call, **kw)
        self.emit = on_emit
        self.emitted = {}

    def ptreq(self, x, y):
        """LLVM types are uniqued: two types are identical iff their representation is"""
        if {x, y} == BUILDERS:
            return False
        r = super().ptreq(x, y)
        if r is None and llrep(x) and llrep(y):
            return llrep(x) == llrep(y)
        return r

    def _call(self, I, name, args, st, e):
        if name and name.startswith("LLVM"):
            self.emitted[name] = self.emitted.get(name, 0) + 1
            if name.startswith("LLVMBuild"):
                mark(st, INST, getpos(st))
        if self.emit:
            return self.emit(self, name, args, st, e)
        return None


USED = ("G", "$used")
INST = ("G", "$inst")


def mark(st, what, block, v=1):
    """the block is a branch target / holds an instruction"""
    for b in elems(block):
        if isinstance(b, tuple) and b[0] == "y" and isinstance(b[1], tuple) and b[1][0] == "bb":
            if isset(block) and v:
                v = mkset([v, (st.mem.get(what) or {}).get((b,), 0)])
            st.setcell(what, (b,), v)


def m_first(what):
    def m(I, args, st, e):
        b = args[0]
        if not (isinstance(b, tuple) and b[0] == "y" and isinstance(b[1], tuple) and b[1][0] == "bb"):
            return NotImplemented
        v = (st.mem.get(what) or {}).get((b,), 0)
        if v == 0:
            return 0
        some = ("y", ("use", what[1], b))
        st.cons[some] = ("ni", frozenset((0,)))
        if v == 1:
            return some
        s2 = st.copy()
        s2.setcell(what, (b,), 0)
        st.setcell(what, (b,), 1)
        return [(st, some), (s2, 0)]
    return m


def site(I, e):
    return tuple((f[0]["name"], f[3]) for f in I.stack[1:]) + (e[1],)


def m_newblock(I, args, st, e):
    name = args[-1]
    v = ("y", ("bb", name[1] if isinstance(name, tuple) and name[0] == "s" else "?", site(I, e)))
    st.cons[v] = ("ni", frozenset((0,)))
    mark(st, USED, v, 0)
    mark(st, INST, v, 0)
    return v


def m_position(I, args, st, e):
    st.setcell(POS, (), args[1])
    return 0


def m_condbr(I, args, st, e):
    st.must = st.must | {("condbr", getpos(st), args[1], args[2], args[3])}
    mark(st, INST, getpos(st))
    mark(st, USED, args[2])
    mark(st, USED, args[3])
    if I.emit:
        I.emit(I, "LLVMBuildCondBr", args, st, e)
    return term("LLVMBuildCondBr", args[1:])


def m_br(I, args, st, e):
    st.must = st.must | {("br", getpos(st), args[1])}
    mark(st, INST, getpos(st))
    mark(st, USED, args[1])
    if I.emit:
        I.emit(I, "LLVMBuildBr", args, st, e)
    return term("LLVMBuildBr", args[1:])


def m_unreachable(I, args, st, e):
    st.must = st.must | {("unreachable", getpos(st))}
    mark(st, INST, getpos(st))
    if I.emit:
        I.emit(I, "LLVMBuildUnreachable", args, st, e)
    return term("LLVMBuildUnreachable", (getpos(st),))


def arr(I, p, n, st):
    out = []
    lv = I.deref(p, st)
    for i in range(n):
        if lv == TOP:
            out.append(TOP)
            continue
        out.append(I.load([(b, q + (i,)) if not (i == 0 and (st.mem.get(b) or {}).get(q + (0,)) is None and q in (st.mem.get(b) or {})) else (b, q) for b, q in lv], st))
    return out


def m_call2(I, args, st, e):
    n = args[4]
    vals = arr(I, args[3], n, st) if isinstance(n, int) else [TOP]
    st.must = st.must | {("call", getpos(st), args[2], tuple(vals))}
    mark(st, INST, getpos(st))
    if I.emit:
        I.emit(I, "LLVMBuildCall2", [args[0], args[1], args[2], tuple(vals)], st, e)
    return term("call", (args[2],) + tuple(vals), site(I, e))


def m_gep(name):
    def m(I, args, st, e):
        n = args[4]
        ix = tuple(arr(I, args[3], n, st)) if isinstance(n, int) else (TOP,)
        v = term(name, (args[0], args[1], args[2]) + ix + (args[5],))
        mark(st, INST, getpos(st))
        if I.emit:
            I.emit(I, "$gep", [args[1], args[2], ix, v], st, e)
        return v
    return m


def m_intrinsic(I, args, st, e):
    return term("intrinsic", (args[1],))


def zero_opaque(I, args, st, e):
    return 0


def m_isconst(I, args, st, e):
    a = args[0]
    if isinstance(a, tuple) and a[0] == "t" and a[1] in ("LLVMConstInt", "LLVMConstNull", "LLVMConstReal"):
        return 1
    return 0


def m_exprptr(I, args, st, e):
    a = args[0]
    if isinstance(a, tuple) and a[0] == "t" and a[1] == "id":
        return a[2][0]
    if isset(a) or a == TOP:
        return mkset([m_exprptr(I, [x], st, e) for x in elems(a)]) if a != TOP else TOP
    if a == 0:
        return ("y", "nullid")
    if isinstance(a, tuple) and a[0] == "p":
        return a
    return term("ptr", (a,))


def m_exprptrzero(I, args, st, e):
    a = args[0]
    if a == 0:
        return 0
    if isinstance(a, tuple) and a[0] == "p":
        return a
    t, f = I.split(a, st.copy()) if a != TOP else (st.copy(), st.copy())
    out = []
    if t is not None:
        out.append((t, m_exprptr(I, args, t, e)))
    if f is not None:
        out.append((f, 0))
    return out


def m_exprid(I, args, st, e):
    a = args[0]
    if isinstance(a, tuple) and a[0] == "t" and a[1] == "ptr":
        return a[2][0]
    if a == TOP or isset(a):
        return TOP
    return term("id", (a,))


def m_derived(kind, suffix):
    """type_get_ptr & co. on a known type: the derived type as a known object"""
    def m(I, args, st, e):
        b = args[0]
        if not (isinstance(b, tuple) and b[0] == "p" and b[1][0] == "O" and b[2] == () and b[1] in KINDS):
            return NotImplemented
        ln = args[1] if len(args) > 1 else None
        if ln is not None and not isinstance(ln, int):
            return NotImplemented
        base = ("O", b[1][1] + suffix % (() if ln is None else (ln,)))
        p = ("p", base, ())
        if base not in st.mem:
            KINDS[base] = kind
            st.setcell(base, ("type_kind",), I.F.enumconst[kind])
            st.setcell(base, ("canonical",), p)
            st.setcell(base, ("pointer",) if kind == "TYPE_POINTER" else ("optional",) if kind == "TYPE_OPTIONAL" else ("array", "base"), b)
            if ln is not None:
                st.setcell(base, ("array", "len"), ln)
                if kind == "TYPE_VECTOR":
                    VECS[base] = (b, ln)
        return p
    return m


def m_lowering(I, args, st, e):
    return TOP if args[0] == TOP else NotImplemented


def rval(ex, ty):
    return ("t", "rval", (ex, ty))


def llty(ty):
    return ("t", "llvm_get_type", (CTX, ty))


SAMETYPE = {"LLVMBuildFreeze": 1, "LLVMBuildAdd": 1, "LLVMBuildSub": 1, "LLVMBuildMul": 1, "LLVMBuildShl": 1, "LLVMBuildLShr": 1,
            "LLVMBuildAShr": 1, "LLVMBuildAnd": 1, "LLVMBuildOr": 1, "LLVMBuildXor": 1, "LLVMBuildNeg": 1, "LLVMBuildNot": 1,
            "LLVMBuildFNeg": 1, "LLVMBuildUDiv": 1, "LLVMBuildSDiv": 1, "LLVMBuildURem": 1, "LLVMBuildSRem": 1,
            "LLVMBuildNSWAdd": 1, "LLVMBuildNUWAdd": 1, "LLVMBuildNSWSub": 1, "LLVMBuildNUWSub": 1, "LLVMBuildSelect": 2, "LLVMBuildInsertElement": 1, "LLVMBuildInsertValue": 1, "LLVMBuildFAdd": 1, "LLVMBuildFSub": 1,
            "LLVMBuildFMul": 1, "LLVMBuildFDiv": 1, "LLVMBuildFRem": 1, "LLVMBuildExactSDiv": 1}
CASTOPS = {"LLVMBuildZExt", "LLVMBuildSExt", "LLVMBuildTrunc", "LLVMBuildBitCast", "LLVMBuildPtrToInt", "LLVMBuildIntToPtr",
           "LLVMBuildFPToSI", "LLVMBuildFPToUI", "LLVMBuildSIToFP", "LLVMBuildUIToFP", "LLVMBuildFPExt", "LLVMBuildFPTrunc",
           "LLVMBuildFPCast", "LLVMBuildIntCast2", "LLVMBuildSExtOrBitCast", "LLVMBuildZExtOrBitCast", "LLVMBuildPointerCast", "LLVMBuildTruncOrBitCast"}
CONSTOPS = {"LLVMConstInt": 0, "LLVMConstNull": 0, "LLVMConstReal": 0, "LLVMGetUndef": 0, "LLVMGetPoison": 0, "LLVMConstAllOnes": 0, "LLVMBuildLoad2": 1}


def typeof(v):
    if isinstance(v, tuple) and v[0] == "t":
        if v[1] == "rval":
            return llty(v[2][1])
        if v[1] in SAMETYPE:
            x = v[2][SAMETYPE[v[1]]]
            return None if isset(x) or x == TOP else typeof(x)
        if v[1] in CASTOPS:
            return v[2][2]
        if v[1] in CONSTOPS:
            return v[2][CONSTOPS[v[1]]]
        if v[1] == "boolval":
            return I1
        if v[1] in ("LLVMBuildIsNull", "LLVMBuildIsNotNull"):
            r = llrep(typeof(v[2][1]))
            return I1 if r and r[0] != "vec" else None
        if v[1] in ("LLVMBuildICmp", "LLVMBuildFCmp"):
            r = llrep(typeof(v[2][2])) or llrep(typeof(v[2][3]))
            return I1 if r and r[0] != "vec" else None
    if isinstance(v, tuple) and v[0] == "y" and isinstance(v[1], tuple) and v[1][0] == "phi" and len(v[1]) > 2:
        return v[1][2]
    return None


I1 = ("t", "intN", (1,))


def m_intn(I, args, st, e):
    return ("t", "intN", (args[-1],)) if isinstance(args[-1], int) else NotImplemented


def m_typeof(I, args, st, e):
    if args[0] == TOP:
        return TOP
    out = []
    for v in elems(args[0]):
        t = typeof(v)
        out.append(t if t is not None else term("LLVMTypeOf", (v,)))
    return mkset(out)


def ctype(t):
    """abstract compiler type behind an LLVM type term"""
    if isinstance(t, tuple) and t[0] == "t" and t[1] == "llvm_get_type":
        return t[2][1]
    return None


def llrep(t):
    """(class, bits) of an LLVM type term of a builtin number type"""
    if isinstance(t, tuple) and t[0] == "t" and t[1] == "intN" and isinstance(t[2][0], int):
        return ("int", t[2][0])
    if isinstance(t, tuple) and t[0] == "t" and t[1] == "LLVMVectorType" and isinstance(t[2][1], int):
        r = llrep(t[2][0])
        return r and ("vec", r, t[2][1])
    c = ctype(t)
    if not (isinstance(c, tuple) and c[0] == "p" and c[2] == ()):
        return None
    if c[1] in VECS:
        el, n = VECS[c[1]]
        r = llrep(llty(el))
        return r and ("vec", r, n)
    k = KINDS.get(c[1])
    if k == "TYPE_BOOL" or k in SIGNED or k in UNSIGNED:
        return ("int", BITS[k])
    if k in FLOATS:
        return ("fp" if k != "TYPE_BF16" else "bf", BITS[k])
    if k in ("TYPE_POINTER", "TYPE_FUNC_PTR"):
        return ("ptr", 64)
    if k in ("TYPE_TYPEID", "TYPE_ANYFAULT"):
        return ("int", 64)
    return None


def kindof(I, ct, st):
    if ct is None or ct == TOP or isset(ct):
        return None, ct
    for _ in range(8):
        lv = I.deref(ct, st)
        if lv == TOP:
            return None, ct
        k = I.load([(b, p + ("type_kind",)) for b, p in lv], st)
        if not isinstance(k, int):
            return None, ct
        if k == I.F.enumconst["TYPE_DISTINCT"]:
            return None, ct
        return k, ct
    return None, ct


def m_gettypekind(I, args, st, e):
    k, ct = kindof(I, ctype(args[0]), st)
    if k is None:
        return term("LLVMGetTypeKind", (args[0],))
    E = I.F.enumconst
    nm = I.kindname[k]
    if nm in SIGNED or nm in UNSIGNED or nm == "TYPE_BOOL" or nm in ("TYPE_TYPEID", "TYPE_ANYFAULT", "TYPE_ENUM"):
        return E["LLVMIntegerTypeKind"]
    f = {"TYPE_F16": "LLVMHalfTypeKind", "TYPE_BF16": "LLVMBFloatTypeKind", "TYPE_F32": "LLVMFloatTypeKind", "TYPE_F64": "LLVMDoubleTypeKind", "TYPE_F128": "LLVMFP128TypeKind",
         "TYPE_POINTER": "LLVMPointerTypeKind", "TYPE_FUNC_PTR": "LLVMPointerTypeKind", "TYPE_VECTOR": "LLVMVectorTypeKind", "TYPE_ARRAY": "LLVMArrayTypeKind", "TYPE_SLICE": "LLVMStructTypeKind", "TYPE_ANY": "LLVMStructTypeKind", "TYPE_STRUCT": "LLVMStructTypeKind"}.get(nm)
    if f:
        return E[f]
    return term("LLVMGetTypeKind", (args[0],))


def m_getelem(I, args, st, e):
    k, ct = kindof(I, ctype(args[0]), st)
    if k is not None and I.kindname[k] in ("TYPE_VECTOR", "TYPE_ARRAY"):
        lv = I.deref(ct, st)
        return llty(I.load([(b, p + ("array", "base")) for b, p in lv], st))
    return term("LLVMGetElementType", (args[0],))


def m_bitsize(I, args, st, e):
    t = args[-1]
    k, ct = kindof(I, ctype(t), st)
    if k is not None:
        nm = I.kindname[k]
        if nm in BITS:
            return BITS[nm]
        if nm == "TYPE_VECTOR":
            lv = I.deref(ct, st)
            b = I.load([(x, p + ("array", "base")) for x, p in lv], st)
            n = I.load([(x, p + ("array", "len")) for x, p in lv], st)
            kb, _ = kindof(I, b, st)
            if kb is not None and I.kindname[kb] in BITS and isinstance(n, int):
                return BITS[I.kindname[kb]] * n
    r = llrep(t)
    if r:
        return r[1] if r[0] != "vec" else r[1][1] * r[2]
    return term("LLVMSizeOfTypeInBits", (t,))


def m_vecsize(I, args, st, e):
    r = llrep(args[0])
    return r[2] if r and r[0] == "vec" else NotImplemented


def m_abisize(I, args, st, e):
    v = m_bitsize(I, args, st, e)
    if isinstance(v, int):
        return (v + 7) // 8
    r = llrep(args[-1])
    if r and r[0] == "ptr":
        return 8
    return NotImplemented


def m_panic(I, args, st, e):
    st.must = st.must | {("panic", getpos(st))}
    if I.emit:
        I.emit(I, "$panic", [getpos(st)] + list(args[1:]), st, e)
    st.setcell(("O", "ctx"), ("current_block",), 0)
    return 0


def m_emit_expr(I, args, st, e):
    """evaluating a sub-expression: the result is a value of the sub-expression's type"""
    val, ex = args[1], args[2]
    ty = I.load([(b, p + ("type",)) for b, p in I.deref(ex, st)], st) if I.deref(ex, st) != TOP else TOP
    lv = I.deref(val, st)
    st.must = st.must | {("eval", ex)}
    if I.emit:
        I.emit(I, "$eval", [ex, getpos(st)], st, e)
    I.store(lv, ("st", ((("alignment",), 0), (("kind",), I.F.enumconst["BE_VALUE"]), (("optional",), 0), (("type",), ty), (("value",), rval(ex, ty))), 0), st)
    return 0


OPAQUE = {"llvm_emit_debug_location", "printf", "llvm_emit_any_from_value", "llvm_emit_panic",
          # type layer and containers: results are stable terms
          "llvm_get_type", "type_get_vector", "type_get_array", "type_get_slice", "type_get_ptr", "type_get_optional",
          "type_get_inferred_array", "type_get_flexible_array", "type_create_array", "expand_", "vec_new_", "calloc_arena",
          "malloc_arena", "calloc_string", "llvm_get_ref", "type_get_resolved_prototype", "llvm_func_type",
          "scratch_buffer_append", "scratch_buffer_printf", "scratch_buffer_clear", "scratch_buffer_to_string",
          "llvm_emit_string_const", "llvm_get_typeid", "sema_error_at", "type_to_error_string", "error_exit", "eprintf",
          "llvm_debug_scope_push", "llvm_debug_scope_pop"}

BASE_MODELS = {
    "llvm_emit_expr": m_emit_expr,
    "llvm_emit_panic": m_panic,
    "LLVMTypeOf": m_typeof,
    "LLVMIntTypeInContext": m_intn,
    "LLVMGetTypeKind": m_gettypekind,
    "LLVMGetElementType": m_getelem,
    "LLVMGetVectorSize": m_vecsize,
    "LLVMSizeOfTypeInBits": m_bitsize,
    "LLVMABISizeOfType": m_abisize,
    "LLVMStoreSizeOfType": m_abisize,
    "LLVMCreateBasicBlockInContext": m_newblock,
    "LLVMAppendBasicBlockInContext": m_newblock,
    "LLVMPositionBuilderAtEnd": m_position,
    "LLVMGetInsertBlock": lambda I, a, st, e: getpos(st),
    "LLVMBasicBlockAsValue": ident(0),
    "LLVMGetFirstUse": m_first(USED),
    "LLVMGetFirstInstruction": m_first(INST),
    "LLVMBuildCondBr": m_condbr,
    "LLVMBuildBr": m_br,
    "LLVMBuildUnreachable": m_unreachable,
    "LLVMBuildCall2": m_call2,
    "type_get_ptr": m_derived("TYPE_POINTER", "*"),
    "type_get_slice": m_derived("TYPE_SLICE", "[]"),
    "type_get_array": m_derived("TYPE_ARRAY", "[%d]"),
    "type_get_vector": m_derived("TYPE_VECTOR", "[<%d>]"),
    "type_get_optional": m_derived("TYPE_OPTIONAL", "?"),
    "type_lowering": m_lowering,
    "LLVMBuildGEP2": m_gep("LLVMBuildGEP2"),
    "LLVMBuildInBoundsGEP2": m_gep("LLVMBuildInBoundsGEP2"),
    "LLVMGetIntrinsicDeclaration": m_intrinsic,
    "LLVMIsAConstantInt": m_isconst,
    "LLVMIsConstant": m_isconst,
    "LLVMIsPoison": zero_opaque,
    "LLVMIsUndef": zero_opaque,
    "LLVMIsNull": zero_opaque,
    "LLVMIsGlobalConstant": zero_opaque,
}
for n in ("expr", "ast", "decl", "type_info"):
    BASE_MODELS[n + "ptr"] = m_exprptr
    BASE_MODELS[n + "ptrzero"] = m_exprptrzero
    BASE_MODELS[n + "id"] = m_exprid


def strip_expect(v):
    while isinstance(v, tuple) and v[0] == "t" and v[1] == "call" and len(v[2]) >= 2:
        f = v[2][0]
        if intr_name(f) == "expect":
            v = v[2][1]
            continue
        break
    return v


def intr_name(f):
    """name of the intrinsic a function term stands for"""
    if isinstance(f, tuple) and f[0] == "t" and f[1] == "intrinsic":
        i = f[2][0]
        if isinstance(i, tuple) and i[0] == "y" and isinstance(i[1], tuple) and i[1][0] == "ld" and i[1][1] == ("G", "intrinsic_id"):
            return i[1][2][0]
    return None


def guards(must, block, seen=None):
    """facts (cond, truth) that dominate `block` in the emitted code"""
    seen = seen or set()
    out = []
    todo = [block]
    while todo:
        b = todo.pop()
        if b in seen or b == TOP:
            continue
        seen.add(b)
        conds = [ev for ev in must if ev[0] == "condbr" and (ev[3] == b) != (ev[4] == b)]
        brs = [ev for ev in must if ev[0] == "br" and ev[2] == b]
        if len(conds) + len(brs) != 1:
            continue
        if conds:
            ev = conds[0]
            other = ev[4] if ev[3] == b else ev[3]
            out.append((strip_expect(ev[2]), ev[3] == b, other))
            todo.append(ev[1])
        else:
            todo.append(brs[0][1])
    return out


def show(v, d=0):
    if v == TOP:
        return "?"
    if isset(v):
        return "{" + "|".join(sorted(show(x, d + 1) for x in v)) + "}"
    if isinstance(v, tuple) and v:
        if v[0] == "t":
            if d > 5:
                return v[1] + "(..)"
            return v[1] + "(" + ", ".join(show(x, d + 1) for x in v[2]) + ")"
        if v[0] == "y":
            k = v[1]
            if isinstance(k, tuple) and k[0] == "ld":
                return show(("p", k[1], k[2]), d + 1)
            if isinstance(k, tuple) and k[0] == "bb":
                return "bb:" + k[1]
            return str(k[1] if isinstance(k, tuple) and len(k) > 1 else k)
        if v[0] == "p":
            b = v[1]
            return (show(b[1], d + 1) if isinstance(b[1], tuple) and b[1] and b[1][0] in ("y", "t") else str(b[1])) + "".join("." + str(x) for x in v[2])
        if v[0] == "s":
            return repr(v[1])
        return str(v[-1])
    return str(v)
