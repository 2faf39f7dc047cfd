"""Shared vocabulary of the rules: normal forms of emitted LLVM terms and the
facts that dominate a position in the emitted code."""
from absint import TOP, elems, isset, mkset
from cgen import CG, World, CTX, strip_expect, guards, getpos, show, intr_name, SCALARS, SIGNED, UNSIGNED, FLOATS, BITS
from facts import AnalysisBroken

INTS = SIGNED | UNSIGNED
IPRED = {}
FPRED = {}


def preds(F):
    if not IPRED:
        for n, v in F.enums["LLVMIntPredicate"]["vals"]:
            IPRED[v] = n[len("LLVMInt"):]
        for n, v in F.enums["LLVMRealPredicate"]["vals"]:
            FPRED[v] = n[len("LLVMReal"):]
    if len(IPRED) < 10 or len(FPRED) < 14:
        raise AnalysisBroken("LLVM predicate enums not found")


def flat(v):
    """all ground alternatives of a value whose sub-terms may be sets (bounded)"""
    if v == TOP:
        return [TOP]
    return list(elems(v))


def N(v):
    """normal form: (op, args...) without builder, names and value-preserving wrappers"""
    if isset(v):
        return ("SET",) + tuple(sorted((N(x) for x in v), key=repr))
    v = strip_expect(v)
    if isset(v):
        return N(v)
    if not isinstance(v, tuple):
        return v
    if v[0] != "t":
        return v
    n, a = v[1], v[2]
    if n == "rval":
        return ("rval", a[0])
    if n == "call":
        i = intr_name(a[0])
        return ("call:" + (i or show(a[0])),) + tuple(N(x) for x in a[1:])
    if n == "LLVMBuildFreeze":
        return N(a[1])
    if n == "LLVMConstInt":
        t = a[0]
        return ("const", a[1])
    if n in ("LLVMConstNull",):
        return ("const", 0)
    if n == "LLVMConstReal":
        return ("constf", a[1])
    if n in ("LLVMBuildICmp", "LLVMBuildFCmp"):
        p = a[1]
        tab = IPRED if n == "LLVMBuildICmp" else FPRED
        p = tab.get(p, show(p)) if isinstance(p, int) else show(p)
        l, r = N(a[2]), N(a[3])
        return ("icmp" if n == "LLVMBuildICmp" else "fcmp", p, l, r)
    if n.startswith("LLVMBuild"):
        args = a[1:]
        if args and isinstance(args[-1], tuple) and args[-1] and args[-1][0] == "s":
            args = args[:-1]
        return (n[9:],) + tuple(N(x) for x in args)
    if n.startswith("LLVM"):
        return (n,) + tuple(N(x) for x in a)
    return (n,) + tuple(N(x) for x in a)


def sh(n):
    """readable normal form"""
    if isinstance(n, tuple) and n and isinstance(n[0], str) and n[0] not in ("y", "p", "s", "t", "f"):
        if n[0] == "rval":
            return show(n[1])
        return n[0] + "(" + ", ".join(sh(x) for x in n[1:]) + ")"
    return show(n)


NEGI = {"EQ": "NE", "NE": "EQ", "UGT": "ULE", "ULE": "UGT", "UGE": "ULT", "ULT": "UGE", "SGT": "SLE", "SLE": "SGT", "SGE": "SLT", "SLT": "SGE"}
SWAPI = {"EQ": "EQ", "NE": "NE", "UGT": "ULT", "ULT": "UGT", "UGE": "ULE", "ULE": "UGE", "SGT": "SLT", "SLT": "SGT", "SGE": "SLE", "SLE": "SGE"}


def atoms_of(cond, truth, out):
    """atoms (kind, pred, a, b) known true when `cond` has truth value `truth`"""
    if isset(cond):
        # a fact holds only if every alternative gives it
        sets = []
        for x in cond:
            o = []
            atoms_of(x, truth, o)
            sets.append(set(o))
        out.extend(set.intersection(*sets) if sets else ())
        return out
    _atoms_n(N(cond), truth, out)
    return out


def _atoms_n(n, truth, out):
    if not isinstance(n, tuple):
        return
    if n[0] == "SET":
        sets = []
        for x in n[1:]:
            o = []
            _atoms_n(x, truth, o)
            sets.append(set(o))
        out.extend(set.intersection(*sets) if sets else ())
    elif n[0] == "Not":
        _atoms_n(n[1], not truth, out)
    elif n[0] == "Xor" and ("const", 1) in n[1:]:
        other = n[1] if n[2] == ("const", 1) else n[2]
        _atoms_n(other, not truth, out)
    elif n[0] == "And" and truth or n[0] == "Or" and not truth:
        _atoms_n(n[1], truth, out)
        _atoms_n(n[2], truth, out)
    elif n[0] == "icmp":
        p = n[1] if truth else NEGI.get(n[1], "?")
        out.append(("icmp", p, n[2], n[3]))
        if p in SWAPI:
            out.append(("icmp", SWAPI[p], n[3], n[2]))
    elif n[0] == "fcmp":
        out.append(("fcmp", n[1], n[2], n[3], truth))
        out.append(("fcmp", n[1], n[3], n[2], truth))
    elif n[0] in ("ZExt", "Trunc", "SExt") and len(n) == 3:
        _atoms_n(n[1], truth, out)
    else:
        out.append(("bool", n, truth))


def facts_at(must, pos, need_panic=True):
    """atoms that hold at `pos`, from conditional branches whose other side panics"""
    out = []
    for cond, truth, other in guards(must, pos):
        if need_panic and not panics(must, other):
            continue
        atoms_of(cond, truth, out)
    return out


def panics(must, block, seen=None):
    """control entering `block` always panics or stops"""
    seen = seen or set()
    if block in seen:
        return False
    seen.add(block)
    if ("panic", block) in must:
        return True
    for ev in must:
        if ev[0] == "br" and ev[1] == block:
            return panics(must, ev[2], seen)
    return False


def strip_ext(n):
    """the value under extensions that keep the number (not truncations)"""
    while isinstance(n, tuple) and n and n[0] in ("ZExt", "SExt", "Freeze") and len(n) >= 2:
        n = n[1]
    return n


def strip_conv(n):
    if isinstance(n, tuple) and n and n[0] == "SET":
        s = set(strip_conv(x) for x in n[1:])
        return s.pop() if len(s) == 1 else n
    while isinstance(n, tuple) and n and n[0] in ("ZExt", "SExt", "Trunc", "IntCast2", "BitCast", "Freeze") and len(n) >= 2:
        n = n[1]
    return n


def runs(I, name, args, st):
    """states at return of the analysed function"""
    r = I.run(name, args, st)
    out = []
    for x in r:
        st, v = (x[0], x[1]) if hasattr(x[0], "mem") else (x[1], x[0])
        out.append((st, v))
    return out


class Emits:
    """collects emitted LLVM operations with the facts dominating them"""

    def __init__(self, want):
        self.want = want
        self.rows = []

    def __call__(self, I, name, args, st, e):
        if name in self.want:
            pos = getpos(st)
            self.rows.append((name, tuple(args), pos, st.must, I.where(e)))
        return None


def deadblock(st):
    return None


def loc(w):
    return "%s:%s" % (w[0].rsplit("/", 1)[-1], w[1]) if isinstance(w, tuple) and len(w) > 1 else str(w)
