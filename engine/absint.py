"""Abstract interpreter over the resolved syntax trees of the repository.

Domain: constants, finite sets of constants (at most LIMIT), symbolic values
with identity, uninterpreted terms over calls whose body is not analysed, and
top.  States are joined where control flow merges; loops are iterated to a
fixpoint (with widening); calls are analysed in their calling context.  Every
call leaving the analysed code is reported to `on_call` together with the set
of events that must have happened before it on every path (intersection at
joins).  Nothing is executed and no path condition is given to a solver.
"""
import functools
import re
import sys
sys.setrecursionlimit(20000)
TOP = "T"
LIMIT = 24
TERM_DEPTH = 9


TRAILQ = re.compile(r"(\s*\b(const|restrict|volatile)\b)+$")


class Budget(Exception):
    pass


def isset(v):
    return isinstance(v, frozenset)


def elems(v):
    return v if isinstance(v, frozenset) else (v,)


def mkset(vals):
    s = set()
    for v in vals:
        if v == TOP:
            return TOP
        if isinstance(v, frozenset):
            s |= v
        else:
            s.add(v)
    if len(s) == 1:
        return next(iter(s))
    if not s:
        return TOP
    if len(s) > LIMIT:
        return TOP
    return frozenset(s)


def tdepth(v):
    if isinstance(v, tuple) and v and v[0] == "t":
        m = 0
        for a in v[2]:
            for x in elems(a):
                d = tdepth(x)
                if d > m:
                    m = d
        return m + 1
    if isinstance(v, tuple) and v and v[0] == "y":
        return 0
    return 0


def term(name, args, key=None):
    t = ("t", name, tuple(args))
    if tdepth(t) > TERM_DEPTH:
        return ("y", ("deep", name, key))
    return t


@functools.lru_cache(None)
def isarr(t):
    """the C type is an array (and not a pointer to one)"""
    if re.match(r"^[^(]*\(\*+\[", t):
        return True
    return t.endswith("]") and "(*)" not in t


class State:
    __slots__ = ("mem", "cons", "must", "aux")

    def __init__(self):
        self.mem = {}
        self.cons = {}
        self.must = frozenset()
        self.aux = None

    def copy(self):
        s = State()
        s.mem = dict(self.mem)   # inner dicts are copy-on-write
        s.cons = dict(self.cons)
        s.must = self.must
        s.aux = self.aux
        return s

    def setcell(self, base, path, v):
        d = self.mem.get(base)
        d = dict(d) if d else {}
        d[path] = v
        self.mem[base] = d

    def same(self, o):
        return self.mem == o.mem and self.cons == o.cons and self.must == o.must


def dflt(base, path, d):
    """value of a missing cell"""
    # longest marker
    if d:
        for i in range(len(path), -1, -1):
            m = d.get(path[:i] + ("~",))
            if m is not None:
                if m == 0:
                    return 0
                if m == TOP:
                    return TOP
                return ("y", ("ld", m[0], m[1] + path[i:]))
    if base[0] == "L":
        return None
    return ("y", ("ld", base, path))


def joincons(a, b):
    out = {}
    for k, (m, s) in a.items():
        o = b.get(k)
        if o is None:
            continue
        if m == "in" and o[0] == "in":
            u = s | o[1]
            if len(u) <= 2 * LIMIT:
                out[k] = ("in", u)
        elif m == "ni" and o[0] == "ni":
            u = s & o[1]
            if u:
                out[k] = ("ni", u)
        else:
            i, n = (s, o[1]) if m == "in" else (o[1], s)
            u = n - i
            if u:
                out[k] = ("ni", u)
    return out


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    s = State()
    s.must = a.must & b.must if a.must is not b.must else a.must
    s.cons = a.cons if a.cons is b.cons or a.cons == b.cons else joincons(a.cons, b.cons)
    s.aux = a.aux
    mem = s.mem
    am, bm = a.mem, b.mem
    for base, da in am.items():
        db = bm.get(base)
        if db is None:
            if base[0] == "L":
                mem[base] = da
                continue
            db = {}
        if da is db:
            mem[base] = da
            continue
        mem[base] = joincells(base, da, db)
    for base, db in bm.items():
        if base not in am:
            mem[base] = db if base[0] == "L" else joincells(base, {}, db)
    return s


def joincells(base, da, db):
    if da == db:
        return da
    d = {}
    for p, v in da.items():
        w = db.get(p)
        if p and p[-1] == "~":
            if w is None or w == v:
                # marker only on one side: keep only when agreed
                d[p] = v if w == v else TOP
            else:
                d[p] = TOP
            continue
        if w is None:
            w = dflt(base, p, db)
            if w is None:
                d[p] = v
                continue
        d[p] = v if v == w else joinval(v, w)
    for p, w in db.items():
        if p in da:
            continue
        if p and p[-1] == "~":
            d[p] = TOP
            continue
        v = dflt(base, p, da)
        d[p] = w if v is None or v == w else joinval(v, w)
    return d


def joinval(v, w):
    if v == w:
        return v
    if v == TOP or w == TOP:
        return TOP
    if isinstance(v, tuple) and v and v[0] == "st" or isinstance(w, tuple) and w and w[0] == "st":
        return joinstruct(v, w)
    return mkset((v, w))


def joinstruct(v, w):
    if not (isinstance(v, tuple) and v[0] == "st" and isinstance(w, tuple) and w[0] == "st"):
        return TOP
    da, db = dict(v[1]), dict(w[1])
    lz = v[2] if v[2] == w[2] else TOP
    out = {}
    for p in set(da) | set(db):
        def g(d, l):
            if p in d:
                return d[p]
            if l == 0:
                return 0
            if l == TOP:
                return TOP
            return ("y", ("ld", l[0], l[1] + p))
        out[p] = joinval(g(da, v[2]), g(db, w[2]))
    return ("st", tuple(sorted(out.items(), key=repr)), lz)


NORMAL, RET, BRK, CONT = "n", "r", "b", "c"

WIDTH = {"int": (32, 1), "unsigned int": (32, 0), "unsigned char": (8, 0), "char": (8, 1), "signed char": (8, 1),
         "short": (16, 1), "unsigned short": (16, 0), "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1),
         "unsigned long long": (64, 0), "_Bool": (1, 0), "bool": (1, 0)}


def wrap(v, ty):
    w = WIDTH.get(ty)
    if w is None or not isinstance(v, int):
        return v
    bits, sg = w
    if bits == 1:
        return 1 if v else 0
    v &= (1 << bits) - 1
    if sg and v >> (bits - 1):
        v -= 1 << bits
    return v


CMP = {"==", "!=", "<", ">", "<=", ">="}


VECBASES = set()   # structures whose embedded arrays are walked with pointers


def isvec(v):
    """pointer to an element of a modelled dynamic array: base ("V", id), path ending in the index"""
    return isinstance(v, tuple) and len(v) == 3 and v[0] == "p" and (v[1][0] == "V" or v[1] in VECBASES) and v[2] and isinstance(v[2][-1], int)


class Interp:
    def __init__(self, F, models=None, opaque=(), on_call=None, max_depth=60, budget=3000000, pure=None, inline=None, on_store=None, event=None):
        self.F = F
        self.models = dict(models or {})
        self.opaque = set(opaque)
        self.on_call = on_call
        self.on_store = on_store
        self.max_depth = max_depth
        self.stack = []
        self.budget = budget
        self.steps = 0
        self.inline = inline      # predicate fn -> bool
        self.pure = pure          # predicate name -> bool : external call gives a stable term
        self.event = event        # (name,args,st,node) -> event tag to add to must
        self.analysed = set()
        self.callsites = 0
        self.site_ctr = {}
        self.has_lab = {}
        self.unroll = 9
        self.max_rec = 2
        self.precise_goto = False
        self.unknown_nodes = {}

    # ---- helpers -------------------------------------------------------
    def resolve(self, name, tu_file=None):
        l = self.F.byname.get(name)
        if not l:
            return None
        if len(l) == 1:
            return l[0]
        for f in l:
            if f["file"] == tu_file:
                return f
        for f in l:
            if self.stack and f["tu"] == self.stack[-1][0]["tu"]:
                return f
        return l[0]

    def poss(self, v, st):
        if isinstance(v, int):
            return (v,)
        if v == TOP:
            return None
        if isset(v):
            out = []
            for x in v:
                p = self.poss(x, st)
                if p is None:
                    return None
                out.extend(p)
            return tuple(set(out))
        if isinstance(v, tuple):
            if v[0] in ("y", "t"):
                c = st.cons.get(v)
                if c and c[0] == "in":
                    return tuple(c[1])
                return None
            return (v,)
        return None

    def excluded(self, v, st):
        if isinstance(v, tuple) and v[0] in ("y", "t"):
            c = st.cons.get(v)
            if c and c[0] == "ni":
                return c[1]
        return frozenset()

    def truth(self, v, st):
        if isinstance(v, int):
            return v != 0
        if v == TOP:
            return None
        if isset(v):
            r = set(self.truth(x, st) for x in v)
            return r.pop() if len(r) == 1 else None
        if isinstance(v, tuple):
            if v[0] in ("y", "t"):
                c = st.cons.get(v)
                if c:
                    if c[0] == "in":
                        r = set(bool(x) if isinstance(x, int) else True for x in c[1])
                        return r.pop() if len(r) == 1 else None
                    if 0 in c[1]:
                        return True
                if v[0] == "t" and v[1] in CMP:
                    return None
                return None
            if v[0] == "f":
                try:
                    return float(v[1]) != 0
                except ValueError:
                    return None
            return True
        return None

    def restrict(self, v, st, keep=None, drop=None):
        """assume v in keep / v not in drop; returns False when impossible"""
        if isinstance(v, tuple) and v[0] in ("y", "t"):
            c = st.cons.get(v)
            if keep is not None:
                k = frozenset(keep)
                if c:
                    k = k & c[1] if c[0] == "in" else k - c[1]
                if not k:
                    return False
                st.cons[v] = ("in", k)
            else:
                d = frozenset(drop)
                if c and c[0] == "in":
                    k = c[1] - d
                    if not k:
                        return False
                    st.cons[v] = ("in", k)
                else:
                    st.cons[v] = ("ni", d | c[1] if c else d)
            return True
        if isinstance(v, int) or (isinstance(v, tuple) and v[0] in ("s", "fn", "p")):
            if keep is not None:
                return v in keep
            return v not in drop
        return True

    # ---- memory --------------------------------------------------------
    def load(self, lv, st):
        if lv == TOP:
            return TOP
        vals = []
        for base, path in lv:
            d = st.mem.get(base)
            v = d.get(path) if d else None
            if v is None and d and "*" in "".join(x if isinstance(x, str) else "" for x in path):
                v = None
            if v is None and d and any(p[:-1] == path[:-1] and p and p[-1] == "*" for p in ()):
                pass
            if v is None and path and isinstance(path[-1], int) and d:
                w = d.get(path[:-1] + ("*",))
                if w is not None:
                    v = w
            if v is None:
                v = dflt(base, path, d)
            if v is None:
                v = ("y", ("un", base[1:], path)) if base[0] == "L" else TOP
            vals.append(v)
        if len(vals) == 1:
            return vals[0]
        r = vals[0]
        for v in vals[1:]:
            r = joinval(r, v)
        return r

    def load_struct(self, lv, st):
        if lv == TOP:
            return TOP
        res = None
        for base, path in lv:
            d = st.mem.get(base) or {}
            v = d.get(path)
            if v is not None and (v == TOP or (isinstance(v, tuple) and v and v[0] in ("y", "t"))) :
                # an opaque struct value stored whole
                items = []
                lz = (("O", v), ()) if v != TOP else TOP
            else:
                items = []
                lz = None
            n = len(path)
            for p, w in d.items():
                if len(p) > n and p[:n] == path:
                    if p[-1] == "~" and len(p) == n + 1:
                        lz = w
                        continue
                    items.append((p[n:], w))
            if lz is None:
                # look up enclosing marker
                for i in range(n, -1, -1):
                    m = d.get(path[:i] + ("~",))
                    if m is not None:
                        lz = m if m in (0, TOP) else (m[0], m[1] + path[i:])
                        break
            if lz is None:
                lz = (base, path) if base[0] != "L" else (("U",) + base[1:], path)
            r = ("st", tuple(sorted(items, key=repr)), lz)
            res = r if res is None else joinstruct(res, r)
        return res if res is not None else TOP

    def store(self, lv, v, st, node=None):
        if self.on_store:
            self.on_store(self, lv, v, st, node)
        if lv == TOP:
            return
        weak = len(lv) > 1
        for base, path in lv:
            w = weak or ("*" in path)
            if isinstance(v, tuple) and v and v[0] == "st":
                self.store_struct(base, path, v, st, w)
            else:
                if w:
                    d = st.mem.get(base)
                    old = d.get(path) if d else None
                    if old is None:
                        old = dflt(base, path, d)
                    if old is None:
                        old = ("y", ("un", base[1:], path))
                    nv = joinval(old, v)
                    if "*" in path and isinstance(path[-1], str) and path[-1] == "*":
                        # unknown index: all known indexed cells become weak
                        d2 = dict(d or {})
                        for p in list(d2):
                            if len(p) == len(path) and p[:-1] == path[:-1] and isinstance(p[-1], int):
                                d2[p] = joinval(d2[p], v)
                        d2[path] = nv
                        st.mem[base] = d2
                    else:
                        st.setcell(base, path, nv)
                else:
                    d = st.mem.get(base)
                    d2 = dict(d) if d else {}
                    n = len(path)
                    # a scalar store kills sub-cells
                    for p in [p for p in d2 if len(p) > n and p[:n] == path]:
                        del d2[p]
                    d2[path] = v
                    st.mem[base] = d2

    def store_struct(self, base, path, v, st, weak):
        d = dict(st.mem.get(base) or {})
        n = len(path)
        if weak:
            old = self.load_struct([(base, path)], st)
            v = joinstruct(old, v)
            if v == TOP:
                v = ("st", (), TOP)
        for p in [p for p in d if p[:n] == path]:
            del d[p]
        for p, w in v[1]:
            d[path + p] = w
        d[path + ("~",)] = v[2]
        st.mem[base] = d

    def deref(self, v, st):
        """pointer value -> lvalue list or TOP"""
        if v == TOP:
            return TOP
        out = []
        for x in elems(v):
            if isinstance(x, int):
                if x == 0:
                    continue
                out.append((("O", x), ()))
            elif x == TOP:
                return TOP
            elif x[0] == "p":
                out.append((x[1], x[2]))
            elif x[0] in ("y", "t", "s"):
                c = st.cons.get(x) if x[0] != "s" else None
                if c and c[0] == "in":
                    got = False
                    for y in c[1]:
                        if isinstance(y, tuple) and y[0] == "p":
                            out.append((y[1], y[2]))
                            got = True
                    if got:
                        continue
                out.append((("O", x), ()))
            else:
                return TOP
        if not out:
            return TOP
        return out

    def ty(self, e):
        return self.stack[-1][0]["types"][e[2]]

    def isrec(self, ty):
        t = TRAILQ.sub("", ty)
        if t.endswith("*") or t.endswith("]") or "(*" in t:
            return False
        if t.startswith("const "):
            t = t[6:]
        return t.startswith("struct ") or t.startswith("union ") or t in self.F.recs

    def lval(self, e, st):
        k = e[0]
        if k == "var":
            f = self.stack[-1]
            if e[5] == 2:
                return [(("G", f[0]["name"] + "::" + e[4]), ())]
            return [(("L", f[1], e[3]), ())]
        if k == "glob":
            return [(("G", e[3]), ())]
        if k == "mem":
            if e[5]:
                b = self.deref(self.eval(e[3], st), st)
            else:
                b = self.lval(e[3], st)
            if b == TOP or b is None:
                return TOP
            if e[4] == "":
                return b
            return [(x, p + (e[4],)) for x, p in b]
        if k == "idx":
            bt = self.ty(e[3])
            if isarr(bt):
                b = self.lval(e[3], st)
            else:
                b = self.deref(self.eval(e[3], st), st)
            i = self.eval(e[4], st)
            if b == TOP:
                return TOP
            ps = self.poss(i, st)
            out = []
            for x, p in b:
                if ps is None or len(ps) > 8:
                    out.append((x, p + ("*",)))
                else:
                    for q in ps:
                        if x[0] == "V" and p and isinstance(p[-1], int) and isinstance(q, int):
                            out.append((x, p[:-1] + (p[-1] + q,)))
                        else:
                            out.append((x, p + (q,)))
            return out
        if k == "un":
            if e[3] == "*":
                return self.deref(self.eval(e[4], st), st)
            if e[3] in ("++", "--"):
                self.eval(e, st)
                return self.lval(e[4], st)
            if e[3] == "__extension__":
                return self.lval(e[4], st)
        if k in ("cast", "icast"):
            return self.lval(e[4], st)
        if k == "clit":
            v = self.eval(e[3], st)
            base = ("C", self.stack[-1][1], e[1], id(e) & 0xffffff)
            self.store([(base, ())], v, st)
            return [(base, ())]
        if k == "cond":
            t, f = self.cond(e[3], st.copy())
            a = self.lval(e[4], t) if t is not None else []
            b = self.lval(e[5], f) if f is not None else []
            self.assign_state(st, join(t, f))
            if a == TOP or b == TOP:
                return TOP
            return a + [x for x in b if x not in a]
        if k == "bin" and e[3] == "=":
            self.eval(e, st)
            return self.lval(e[4], st)
        if k == "bin" and e[3] == ",":
            self.eval(e[4], st)
            return self.lval(e[5], st)
        if k == "str":
            return [(("O", ("s", e[3])), ())]
        # rvalue struct: materialise
        v = self.eval(e, st)
        base = ("C", self.stack[-1][1], e[1], id(e) & 0xffffff)
        if isinstance(v, tuple) and v and v[0] == "st":
            self.store([(base, ())], v, st)
            return [(base, ())]
        if v == TOP:
            return TOP
        return [(("O", v), ())] if not isset(v) else [(("O", x), ()) for x in v]

    def assign_state(self, st, other):
        if other is None:
            st.mem = {}
            st.aux = "dead"
            return
        st.mem, st.cons, st.must, st.aux = other.mem, other.cons, other.must, other.aux

    def dead(self, st):
        return st.aux == "dead"

    # ---- expressions ---------------------------------------------------
    def eval(self, e, st):
        if e is None:
            return TOP
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("budget exceeded in " + " > ".join(f[0]["name"] for f in self.stack[-6:]))
        k = e[0]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.unknown_nodes[k] = self.unknown_nodes.get(k, 0) + 1
            return TOP
        return m(e, st)

    def e_int(self, e, st):
        return e[3]

    def e_enum(self, e, st):
        return e[4]

    def e_flt(self, e, st):
        return ("f", e[3])

    def e_str(self, e, st):
        return ("s", e[3])

    def e_zero(self, e, st):
        return ("st", (), 0) if self.isrec(self.ty(e)) else 0

    def e_fn(self, e, st):
        return ("fn", e[3])

    def e_sizeof(self, e, st):
        return e[3] if e[3] is not None else TOP

    def e_vaarg(self, e, st):
        return TOP

    def e_unk(self, e, st):
        self.unknown_nodes["unk:" + str(e[3])] = self.unknown_nodes.get("unk:" + str(e[3]), 0) + 1
        for x in e[4:]:
            self.eval(x, st)
        return TOP

    def rv(self, e, st):
        t = self.ty(e)
        lv = self.lval(e, st)
        if isarr(t):
            if lv == TOP:
                return TOP
            return mkset([("p", b, p + (0,) if b in VECBASES else p) for b, p in lv])
        if self.isrec(t):
            return self.load_struct(lv, st)
        if lv != TOP and len(lv) == 1 and lv[0][0][0] == "G":
            g = self.global_value(lv[0], st)
            if g is not None:
                return g
        v = self.load(lv, st)
        return v

    def global_value(self, cell, st):
        base, path = cell
        d = st.mem.get(base)
        if d and (path in d or any(p[:len(path)] == path or path[:len(p)] == p for p in d)):
            return None
        g = self.F.gvars.get(base[1])
        if g is None or g["init"] is None or not g["const"] and (g["name"] in self.F.written or g["extern"]):
            return None
        e = g["init"]
        for x in path:
            if not isinstance(e, list):
                return None
            if e[0] == "init":
                for n, s in e[3]:
                    if n == x:
                        e = s
                        break
                else:
                    if isinstance(x, int) or any(isinstance(n, str) for n, s in e[3]) or not e[3]:
                        return 0 if x != "*" else None
                    return 0
            else:
                return None
        if e[0] in ("int", "enum", "str", "flt", "cast", "icast", "fn", "bin", "un"):
            self.stack.append((g, "gl", {}, 0))
            try:
                return self.eval(e, st)
            finally:
                self.stack.pop()
        return None

    e_var = e_glob = e_mem = e_idx = rv

    def e_un(self, e, st):
        op = e[3]
        if op == "*":
            return self.rv(e, st)
        if op == "&":
            x = e[4]
            if x[0] == "fn":
                return ("fn", x[3])
            lv = self.lval(x, st)
            if lv == TOP:
                return TOP
            return mkset([("p", b, p) if not (b[0] == "O" and p == () and isinstance(b[1], tuple)) else b[1] for b, p in lv])
        if op in ("++", "--", "p++", "p--"):
            lv = self.lval(e[4], st)
            v = self.load(lv, st)
            n = self.arith("+" if "+" in op else "-", v, 1, st, e, self.ty(e))
            self.store(lv, n, st, e)
            return v if op[0] == "p" else n
        if op == "!":
            t, f = self.cond(e[4], st.copy())
            self.assign_state(st, join(t, f))
            if t is None and f is None:
                return TOP
            if t is None:
                return 1
            if f is None:
                return 0
            return frozenset((0, 1))
        v = self.eval(e[4], st)
        if op == "__extension__" or op == "+":
            return v
        if op in ("-", "~"):
            if isinstance(v, int):
                return wrap(-v if op == "-" else ~v, self.ty(e))
            if isinstance(v, tuple) and v[0] == "f":
                return ("f", "-" + v[1]) if op == "-" else TOP
            if v == TOP:
                return TOP
            if isset(v):
                return mkset([wrap(-x if op == "-" else ~x, self.ty(e)) if isinstance(x, int) else term("u" + op, (x,), e[1]) for x in v])
            return term("u" + op, (v,), e[1])
        return TOP

    def arith(self, op, a, b, st, e, ty=None):
        if a == TOP or b == TOP:
            return TOP
        pa, pb = self.poss(a, st), self.poss(b, st)
        if pa is not None and pb is not None and all(isinstance(x, int) for x in pa) and all(isinstance(x, int) for x in pb) and len(pa) * len(pb) <= 200:
            out = set()
            for x in pa:
                for y in pb:
                    r = self.arith1(op, x, y)
                    if r is None:
                        return TOP
                    out.add(wrap(r, ty) if ty else r)
            return mkset(out)
        if op in ("+", "-") and isinstance(b, int) and b == 0:
            return a
        if isvec(a) and isinstance(b, int) and op in ("+", "-"):
            return ("p", a[1], a[2][:-1] + (a[2][-1] + (b if op == "+" else -b),))
        if isvec(a) and isvec(b) and op == "-" and a[1] == b[1]:
            return a[2][-1] - b[2][-1]
        if isset(a) or isset(b):
            if len(elems(a)) * len(elems(b)) > 16:
                return TOP
            return mkset([self.arith(op, x, y, st, e, ty) for x in elems(a) for y in elems(b)])
        if op == "+" and isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
        if op == "-" and a == b:
            return 0
        return term(op, (a, b), e[1])

    def arith1(self, op, x, y):
        try:
            if op == "+":
                return x + y
            if op == "-":
                return x - y
            if op == "*":
                return x * y
            if op == "/":
                return int(abs(x) // abs(y)) * (1 if (x >= 0) == (y >= 0) else -1) if y else None
            if op == "%":
                return abs(x) % abs(y) * (1 if x >= 0 else -1) if y else None
            if op == "<<":
                return x << y if 0 <= y < 200 else None
            if op == ">>":
                return x >> y if 0 <= y < 200 else None
            if op == "&":
                return x & y
            if op == "|":
                return x | y
            if op == "^":
                return x ^ y
            if op == "==":
                return int(x == y)
            if op == "!=":
                return int(x != y)
            if op == "<":
                return int(x < y)
            if op == ">":
                return int(x > y)
            if op == "<=":
                return int(x <= y)
            if op == ">=":
                return int(x >= y)
        except Exception:
            return None
        return None

    def e_bin(self, e, st):
        op = e[3]
        if op == ",":
            self.eval(e[4], st)
            return self.eval(e[5], st)
        if op == "=":
            return self.assign(e, st)
        if op in ("&&", "||") or op in CMP:
            t, f = self.cond(e, st.copy())
            self.assign_state(st, join(t, f))
            if t is None and f is None:
                return TOP
            if t is None:
                return 0
            if f is None:
                return 1
            if op in CMP:
                a, b = self.last_cmp
                if a != TOP and b != TOP and not isset(a) and not isset(b) and not (isinstance(a, int) and isinstance(b, int)):
                    return term(op, (a, b), e[1])
            return frozenset((0, 1))
        if op.endswith("="):
            lv = self.lval(e[4], st)
            a = self.load(lv, st)
            b = self.eval(e[5], st)
            v = self.arith(op[:-1], a, b, st, e, self.ty(e))
            self.store(lv, v, st, e)
            return v
        a = self.eval(e[4], st)
        b = self.eval(e[5], st)
        return self.arith(op, a, b, st, e, self.ty(e))

    def assign(self, e, st):
        v = self.eval(e[5], st)
        if self.dead(st):
            return TOP
        lv = self.lval(e[4], st)
        self.store(lv, v, st, e)
        return v

    def e_cond(self, e, st):
        t, f = self.cond(e[3], st.copy())
        vt = vf = None
        if t is not None:
            vt = self.eval(e[4], t)
            if self.dead(t):
                t = None
        if f is not None:
            vf = self.eval(e[5], f)
            if self.dead(f):
                f = None
        self.assign_state(st, join(t, f))
        if t is None:
            return vf if f is not None else TOP
        if f is None:
            return vt
        return joinval(vt, vf)

    def e_elvis(self, e, st):
        v = self.eval(e[3], st)
        tr = self.truth(v, st)
        if tr is True:
            return v
        if tr is False:
            return self.eval(e[4], st)
        s2 = st.copy()
        w = self.eval(e[4], s2)
        if self.dead(s2):
            self.restrict(v, st, drop=(0,))
            return v
        self.assign_state(st, join(st.copy(), s2))
        return joinval(mkset([x for x in elems(v) if x != 0]) if v != TOP and isset(v) else v, w)

    def e_icast(self, e, st):
        v = self.eval(e[4], st)
        return self.castv(v, self.ty(e), e[3])

    e_cast = e_icast

    def castv(self, v, ty, kind):
        if kind in ("IntegralCast", "IntegralToBoolean", "PointerToBoolean") and v != TOP:
            if isinstance(v, int):
                return wrap(v, ty)
            if isset(v):
                return mkset([wrap(x, ty) if isinstance(x, int) else x for x in v])
        if kind in ("IntegralToFloating",) and isinstance(v, int):
            return ("f", repr(float(v)))
        return v

    def e_clit(self, e, st):
        return self.eval(e[3], st)

    def e_init(self, e, st):
        items = []
        for n, s in e[3]:
            v = self.eval(s, st)
            key = (n,) if n != "" else ()
            if isinstance(v, tuple) and v and v[0] == "st":
                for p, w in v[1]:
                    items.append((key + p, w))
                if v[2] != 0:
                    items.append((key + ("~",), v[2]))
            else:
                items.append((key, v))
        return ("st", tuple(sorted(items, key=repr)), 0)

    def e_sexpr(self, e, st):
        # statement expression: value of the last expression statement
        body = e[3]
        out = TOP
        stmts = body[2:]
        fr = self.stack[-1]
        for i, s in enumerate(stmts):
            if i == len(stmts) - 1 and s[0] == "expr":
                out = self.eval(s[2], st)
            else:
                r = self.exec(s, st.copy(), fr[2])
                self.assign_state(st, r)
                if r is None:
                    return TOP
        return out

    def e_call(self, e, st):
        outs = self.call(e, st)
        if not outs:
            self.assign_state(st, None)
            return TOP
        s = None
        v = None
        for os, ov in outs:
            s = join(s, os)
            v = ov if v is None else joinval(v, ov)
        self.assign_state(st, s)
        return v if v is not None else TOP

    def call(self, e, st):
        """returns list of (state, value); empty list when it never returns"""
        self.callsites += 1
        callee = e[3]
        if callee[0] == "fn":
            name = callee[3]
            names = [name]
        else:
            cv = self.eval(callee, st)
            names = [x[1] if isinstance(x, tuple) and x[0] == "fn" else None for x in elems(cv)]
            if any(n is None for n in names):
                names = [None]
        args = []
        for a in e[4]:
            args.append(self.eval(a, st))
            if self.dead(st):
                return []
        res = []
        for i, name in enumerate(names):
            s = st if i == len(names) - 1 else st.copy()
            res.extend(self.call_named(name, args, s, e))
        return res

    def call_named(self, name, args, st, e):
        if name is None:
            if self.on_call:
                self.on_call(self, None, args, st, e)
            return [(st, ("y", ("ind", e[1], len(self.stack))))]
        m = self.models.get(name)
        if m is not None:
            r = m(self, args, st, e)
            if r is not NotImplemented:
                if r is None:
                    return []
                if isinstance(r, list):
                    return r
                return [(st, r)]
        fn = None if name in self.opaque else self.resolve(name)
        if fn is not None and self.inline and not self.inline(fn):
            fn = None
        if fn is not None and (len(self.stack) >= self.max_depth or sum(1 for f in self.stack if f[0] is fn) >= self.max_rec):
            self.havoc_args(args, st)
            if self.on_call:
                self.on_call(self, name, args, st, e)
            return [] if fn["noret"] else [(st, ("y", ("rec", name, e[1])))]
        if fn is None:
            if self.on_call:
                r = self.on_call(self, name, args, st, e)
                if r is not None:
                    return r
            if self.event:
                ev = self.event(name, args, st, e)
                if ev is not None:
                    st.must = st.must | {ev}
            if e[0] == "call" and e[5]:
                return []
            p = self.F.protos.get(name)
            if p and p["noret"]:
                return []
            if self.pure is None or self.pure(name):
                r = term(name, [a if not (isinstance(a, tuple) and a and a[0] == "st") else ("y", ("stv", name, e[1])) for a in args], e[1])
            else:
                r = ("y", ("c", name, e[1], tuple(f[0]["name"] for f in self.stack[-3:])))
                st.cons.pop(r, None)
            self.havoc_out(name, args, st, e)
            return [(st, r)]
        return self.call_fn(fn, args, st, e)

    def havoc_out(self, name, args, st, e):
        # pointers to locals passed out of the analysed code may be written
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a and a[0] == "p" and a[1][0] in ("L", "C"):
                base, path = a[1], a[2]
                d = dict(st.mem.get(base) or {})
                for p in [p for p in d if p[:len(path)] == path]:
                    del d[p]
                d[path] = ("y", ("out", name, e[1], i))
                d[path + ("~",)] = (("O", ("y", ("out", name, e[1], i))), ())
                st.mem[base] = d

    def havoc_args(self, args, st):
        for a in args:
            for x in elems(a):
                if isinstance(x, tuple) and x and x[0] == "p":
                    d = dict(st.mem.get(x[1]) or {})
                    for p in [p for p in d if p[:len(x[2])] == x[2]]:
                        d[p] = TOP
                    d[x[2] + ("~",)] = TOP
                    st.mem[x[1]] = d

    def call_fn(self, fn, args, st, e=None):
        self.analysed.add((fn["name"], fn["file"]))
        frame = (fn, (len(self.stack), fn["name"]), {"labels": {}, "rets": []}, e[1] if e is not None else 0)
        params = fn["params"]
        base0 = frame[1]
        # clear leftover cells of an earlier frame at this depth
        for b in [b for b in st.mem if b[0] in ("L", "C") and b[1] == base0]:
            del st.mem[b]
        self.stack.append(frame)
        try:
            for i, p in enumerate(params):
                v = args[i] if i < len(args) else TOP
                self.store([(("L", base0, p[0]), ())], v, st)
            pend = {}
            if self.precise_goto:
                # each jump back is its own pass that starts at the label
                start, rets = st.copy(), []
                for it in range(max(12, self.unroll)):
                    ctx = {"labels": dict(pend), "rets": rets, "brk": None, "cont": None, "seen": {}, "done": set(), "back": {}}
                    frame[2].clear()
                    frame[2].update(ctx)
                    s = self.exec(fn["body"], start, frame[2])
                    if s is not None:
                        rets.append((s, 0))
                    pend, start = frame[2]["back"], None
                    if not pend:
                        break
                else:
                    raise Budget("too many jumps back in " + fn["name"])
            for it in range(0 if self.precise_goto else 4):
                ctx = {"labels": dict(pend), "rets": [], "brk": None, "cont": None, "seen": {}}
                frame[2].clear()
                frame[2].update(ctx)
                s = self.exec(fn["body"], st.copy() if it < 3 else st.copy(), frame[2])
                if s is not None:
                    frame[2]["rets"].append((s, 0))
                # backward gotos: label state not yet covered?
                again = False
                for l, ls in frame[2]["labels"].items():
                    used = frame[2]["seen"].get(l)
                    if used is None:
                        continue
                    j = join(used, ls)
                    if not j.same(used):
                        pend[l] = j
                        again = True
                if not again:
                    break
            rets = frame[2]["rets"]
        finally:
            self.stack.pop()
        # group by concrete return value
        groups = {}
        for s, v in rets:
            t = self.truth(v, s)
            key = (t if t is not None else "?") if not isinstance(v, tuple) or v[0] != "st" else "st"
            if key in groups:
                os, ov = groups[key]
                groups[key] = (join(os, s), joinval(ov, v))
            else:
                groups[key] = (s, v)
        out = []
        for s, v in groups.values():
            s2 = s.copy()
            for b in [b for b in s2.mem if b[0] in ("L", "C") and b[1] == base0]:
                del s2.mem[b]
            out.append((s2, v))
        return out

    # ---- conditions ----------------------------------------------------
    last_cmp = (TOP, TOP)

    def cond(self, e, st):
        """returns (state if true | None, state if false | None); consumes st"""
        if st is None or self.dead(st):
            return None, None
        k = e[0]
        if k == "un" and e[3] == "!":
            t, f = self.cond(e[4], st)
            return f, t
        if k == "bin" and e[3] == "&&":
            t, f = self.cond(e[4], st)
            if t is None:
                return None, f
            t2, f2 = self.cond(e[5], t)
            return t2, join(f, f2)
        if k == "bin" and e[3] == "||":
            t, f = self.cond(e[4], st)
            if f is None:
                return t, None
            t2, f2 = self.cond(e[5], f)
            return join(t, t2), f2
        if k == "bin" and e[3] == ",":
            self.eval(e[4], st)
            return self.cond(e[5], st)
        if k in ("icast", "cast") and e[3] in ("IntegralCast", "IntegralToBoolean", "PointerToBoolean", "NoOp", "LValueToRValue"):
            return self.cond(e[4], st)
        if k == "cond":
            t, f = self.cond(e[3], st)
            tt, tf = self.cond(e[4], t) if t is not None else (None, None)
            ft, ff = self.cond(e[5], f) if f is not None else (None, None)
            return join(tt, ft), join(tf, ff)
        if k == "bin" and e[3] in CMP:
            a = self.eval(e[4], st)
            b = self.eval(e[5], st)
            if self.dead(st):
                return None, None
            self.last_cmp = (a, b)
            return self.compare(e[3], a, b, st)
        if k == "call":
            outs = self.call(e, st)
            T = Fa = None
            for s, v in outs:
                t, f = self.split(v, s)
                T = join(T, t)
                Fa = join(Fa, f)
            return T, Fa
        if k == "bin" and e[3] == "=":
            v = self.assign(e, st)
            if self.dead(st):
                return None, None
            t, f = self.split(v, st)
            lv = None
            # a set-valued variable may be refined
            return self.refine_var(e[4], v, t, f)
        v = self.eval(e, st)
        if self.dead(st):
            return None, None
        t, f = self.split(v, st)
        if k in ("var", "mem", "idx", "glob"):
            return self.refine_var(e, v, t, f)
        return t, f

    def refine_var(self, e, v, t, f):
        if isset(v):
            if t is not None:
                self.refine_store(e, mkset([x for x in v if not (isinstance(x, int) and x == 0)]), t)
            if f is not None:
                keep = [x for x in v if isinstance(x, int) and x == 0 or self.truth(x, f) is None]
                if keep:
                    self.refine_store(e, mkset(keep), f)
        return t, f

    def refine_store(self, e, v, st):
        if v == TOP or e[0] not in ("var", "mem", "glob"):
            return
        try:
            lv = self.lval_pure(e, st)
        except Exception:
            return
        if lv and lv != TOP and len(lv) == 1:
            base, path = lv[0]
            d = st.mem.get(base)
            if d and path in d:
                st.setcell(base, path, v)

    def lval_pure(self, e, st):
        k = e[0]
        if k in ("var", "glob"):
            return self.lval(e, st)
        if k == "mem" and e[3][0] in ("var", "mem", "glob"):
            return self.lval(e, st)
        return None

    def split(self, v, st):
        tr = self.truth(v, st)
        if tr is True:
            return st, None
        if tr is False:
            return None, st
        s2 = st.copy()
        t, f = st, s2
        if isinstance(v, tuple) and v[0] in ("y", "t"):
            if v[0] == "t" and v[1] in CMP and len(v[2]) == 2:
                t2, f2 = self.compare(v[1], v[2][0], v[2][1], st)
                if t2 is not None:
                    t2.cons[v] = ("in", frozenset((1,)))
                if f2 is not None:
                    f2.cons[v] = ("in", frozenset((0,)))
                return t2, f2
            if not self.restrict(v, t, drop=(0,)):
                t = None
            if not self.restrict(v, f, keep=(0,)):
                f = None
        return t, f

    def compare(self, op, a, b, st):
        pa, pb = self.poss(a, st), self.poss(b, st)
        if pa is not None and pb is not None and len(pa) * len(pb) <= 4000:
            ints = all(isinstance(x, int) for x in pa) and all(isinstance(x, int) for x in pb)
            if ints or op in ("==", "!="):
                at, af, bt, bf = set(), set(), set(), set()
                unk = False
                for x in pa:
                    for y in pb:
                        if isinstance(x, int) and isinstance(y, int):
                            r = self.arith1(op, x, y)
                        else:
                            r = self.ptreq(x, y)
                            if r is None:
                                unk = True
                                r = None
                            elif op == "!=":
                                r = not r
                        if r is None or r:
                            at.add(x)
                            bt.add(y)
                        if r is None or not r:
                            af.add(x)
                            bf.add(y)
                s2 = st.copy() if af else None
                t = st if at else None
                if t is not None:
                    self.narrow(a, at, t)
                    self.narrow(b, bt, t)
                if s2 is not None:
                    self.narrow(a, af, s2)
                    self.narrow(b, bf, s2)
                return t, s2
        if op in ("==", "!="):
            if not isset(a) and not isset(b) and a != TOP and b != TOP and a == b:
                return (st, None) if op == "==" else (None, st)
            r = None
            if not isset(a) and not isset(b) and a != TOP and b != TOP:
                r = self.ptreq(a, b)
            if r is not None:
                eqr = r if op == "==" else not r
                return (st, None) if eqr else (None, st)
            t, f = st, st.copy()
            eq, ne = (t, f) if op == "==" else (f, t)
            okeq = okne = True
            for x, px, y, py in ((a, pa, b, pb), (b, pb, a, pa)):
                if py is not None and isinstance(x, tuple) and x[0] in ("y", "t"):
                    if not self.restrict(x, eq, keep=py):
                        okeq = False
                    if len(py) == 1:
                        if not self.restrict(x, ne, drop=py):
                            okne = False
            if op == "==":
                return (t if okeq else None), (f if okne else None)
            return (t if okne else None), (f if okeq else None)
        if isvec(a) and isvec(b) and a[1] == b[1]:
            return (st, None) if self.arith1(op, a[2][-1], b[2][-1]) else (None, st)
        # relational on unknowns: remember the outcome for the same operands
        if not isset(a) and not isset(b) and a != TOP and b != TOP:
            tm = term(op, (a, b))
            c = st.cons.get(tm)
            if c and c[0] == "in":
                return (None, st) if 0 in c[1] and len(c[1]) == 1 else (st, None)
            f = st.copy()
            st.cons[tm] = ("in", frozenset((1,)))
            f.cons[tm] = ("in", frozenset((0,)))
            return st, f
        return st, st.copy()

    def narrow(self, v, keep, st):
        if isinstance(v, tuple) and v[0] in ("y", "t"):
            self.restrict(v, st, keep=keep)

    def ptreq(self, x, y):
        if x == y:
            return True
        kx = x[0] if isinstance(x, tuple) else "i"
        ky = y[0] if isinstance(y, tuple) else "i"
        if kx in ("y", "t") or ky in ("y", "t"):
            return None
        if kx == "i" and ky in ("p", "fn", "s") or ky == "i" and kx in ("p", "fn", "s"):
            return False
        if kx == "p" and ky == "p":
            return False
        if kx == "fn" and ky == "fn":
            return False
        if kx == "f" and ky == "f":
            try:
                return float(x[1]) == float(y[1])
            except ValueError:
                return None
        return None

    # ---- statements ----------------------------------------------------
    def labels_in(self, s):
        if not isinstance(s, list):
            return False
        i = id(s)
        r = self.has_lab.get(i)
        if r is not None:
            return r
        k = s[0]
        r = False
        if k in ("case", "default", "label"):
            r = True
        elif k in ("blk", "unks"):
            r = any(self.labels_in(x) for x in s[2:])
        elif k == "if":
            r = self.labels_in(s[3]) or self.labels_in(s[4])
        elif k in ("while", "do"):
            r = self.labels_in(s[3])
        elif k == "for":
            r = self.labels_in(s[5])
        elif k == "switch":
            r = self.has_goto_label(s[3])
        self.has_lab[i] = r
        return r

    def has_goto_label(self, s):
        if not isinstance(s, list):
            return False
        k = s[0]
        if k == "label":
            return True
        if k in ("blk", "unks"):
            return any(self.has_goto_label(x) for x in s[2:])
        if k == "if":
            return self.has_goto_label(s[3]) or self.has_goto_label(s[4])
        if k in ("while", "do"):
            return self.has_goto_label(s[3])
        if k == "for":
            return self.has_goto_label(s[5])
        if k == "switch":
            return self.has_goto_label(s[3])
        if k == "case":
            return self.has_goto_label(s[5])
        if k == "default":
            return self.has_goto_label(s[2])
        return False

    def exec(self, s, st, ctx):
        if s is None:
            return st
        if st is not None and self.dead(st):
            st = None
        k = s[0]
        if st is None and not self.labels_in(s):
            return None
        return getattr(self, "s_" + k)(s, st, ctx)

    def s_blk(self, s, st, ctx):
        for x in s[2:]:
            st = self.exec(x, st, ctx)
        return st

    def s_nop(self, s, st, ctx):
        return st

    def s_unks(self, s, st, ctx):
        self.unknown_nodes["s:" + s[2]] = self.unknown_nodes.get("s:" + s[2], 0) + 1
        for x in s[3:]:
            st = self.exec(x, st, ctx)
        return st

    def s_expr(self, s, st, ctx):
        self.eval(s[2], st)
        return None if self.dead(st) else st

    def s_decl(self, s, st, ctx):
        fr = self.stack[-1]
        for vid, name, ty, init, static, line in s[2]:
            if static:
                continue
            if init is None:
                base = ("L", fr[1], vid)
                st.mem.pop(base, None)
                continue
            v = self.eval(init, st)
            if self.dead(st):
                return None
            t = fr[0]["types"][ty]
            if t.endswith("]") and init[0] == "str":
                st.mem[("L", fr[1], vid)] = {(): v}
                continue
            self.store([(("L", fr[1], vid), ())], v, st, None)
        return st

    def s_if(self, s, st, ctx):
        t, f = self.cond(s[2], st) if st is not None else (None, None)
        t = self.exec(s[3], t, ctx)
        if s[4] is not None:
            f = self.exec(s[4], f, ctx)
        return join(t, f)

    def loop(self, st, ctx, cond, body, inc, post=False):
        obrk, ocont = ctx["brk"], ctx["cont"]
        exitst = None
        cur = st
        if cur is None:
            # only labels inside
            ctx["brk"], ctx["cont"] = None, None
            b = self.exec(body, None, ctx)
            b = join(b, ctx["cont"])
            exitst = ctx["brk"]
            ctx["brk"], ctx["cont"] = obrk, ocont
            if b is not None and cond is not None:
                t, f = self.cond(cond, b)
                exitst = join(exitst, f)
            return exitst
        peeled = None
        if not post and cond is not None:
            # peel while the condition is decided (constant trip counts)
            for _ in range(self.unroll):
                s0 = cur.copy()
                t, f = self.cond(cond, s0)
                if t is None:
                    ctx["brk"], ctx["cont"] = obrk, ocont
                    return join(peeled, f)
                if f is not None:
                    break
                ctx["brk"], ctx["cont"] = None, None
                b = self.exec(body, t, ctx)
                peeled = join(peeled, ctx["brk"])
                b = join(b, ctx["cont"])
                if b is not None and inc is not None:
                    self.eval(inc, b)
                    if self.dead(b):
                        b = None
                if b is None:
                    ctx["brk"], ctx["cont"] = obrk, ocont
                    return peeled
                cur = b
        nret = len(ctx["rets"])
        for it in range(max(12, self.unroll)):
            ctx["brk"], ctx["cont"] = None, None
            del ctx["rets"][nret:]
            s0 = cur.copy()
            f = None
            if not post and cond is not None:
                t, f = self.cond(cond, s0)
            else:
                t = s0
            b = self.exec(body, t, ctx)
            b = join(b, ctx["cont"])
            if post and b is not None:
                if cond is not None:
                    b, f2 = self.cond(cond, b)
                    f = f2
            elif inc is not None and b is not None:
                self.eval(inc, b)
                if self.dead(b):
                    b = None
            exitst = join(f, ctx["brk"])
            if b is None:
                break
            nxt = join(cur, b)
            if nxt.same(cur):
                break
            if it >= 5:
                nxt = self.widen(cur, nxt)
            cur = nxt
        ctx["brk"], ctx["cont"] = obrk, ocont
        return join(peeled, exitst)

    def widen(self, old, new):
        for base, d in list(new.mem.items()):
            od = old.mem.get(base)
            if od is d or od == d:
                continue
            nd = dict(d)
            for p, v in d.items():
                if od is None or od.get(p) != v:
                    nd[p] = TOP
            new.mem[base] = nd
        for k in list(new.cons):
            if old.cons.get(k) != new.cons[k]:
                del new.cons[k]
        return new

    def s_while(self, s, st, ctx):
        return self.loop(st, ctx, s[2], s[3], None)

    def s_do(self, s, st, ctx):
        c = s[2]
        if c[0] == "int" and c[3] == 0:
            # do { } while (0)
            obrk, ocont = ctx["brk"], ctx["cont"]
            ctx["brk"] = ctx["cont"] = None
            r = self.exec(s[3], st, ctx)
            r = join(join(r, ctx["brk"]), ctx["cont"])
            ctx["brk"], ctx["cont"] = obrk, ocont
            return r
        return self.loop(st, ctx, c, s[3], None, post=True)

    def s_for(self, s, st, ctx):
        if st is not None:
            st = self.exec(s[2], st, ctx)
        return self.loop(st, ctx, s[3], s[5], s[4])

    def cases(self, s, out):
        if not isinstance(s, list):
            return
        k = s[0]
        if k == "case":
            out.append(s)
            self.cases(s[5], out)
        elif k == "default":
            out.append(s)
            self.cases(s[2 + 0], out)
        elif k in ("blk", "unks"):
            for x in s[2:]:
                self.cases(x, out)
        elif k == "if":
            self.cases(s[3], out)
            self.cases(s[4], out)
        elif k in ("while", "do"):
            self.cases(s[3], out)
        elif k == "for":
            self.cases(s[5], out)
        elif k == "label":
            self.cases(s[3], out)

    def s_switch(self, s, st, ctx):
        obrk = ctx["brk"]
        oent = ctx.get("entries")
        ctx["brk"] = None
        ent = {}
        nodefault = None
        if st is not None:
            v = self.eval(s[2], st)
            if self.dead(st):
                st = None
        if st is not None:
            cs = []
            self.cases(s[3], cs)
            ps = self.poss(v, st)
            dropped = []
            deflt = None
            matched = set()
            for c in cs:
                if c[0] == "default":
                    deflt = c
                    continue
                lo, hi = c[3], c[4]
                vals = range(lo, (hi if hi is not None else lo) + 1) if lo is not None else ()
                dropped.extend(vals)
                if ps is not None:
                    hit = [x for x in ps if isinstance(x, int) and x in vals]
                    if not hit:
                        continue
                    matched.update(hit)
                    x = st.copy()
                    self.switch_refine(s[2], v, hit, x)
                    ent[id(c)] = x
                else:
                    if v != TOP and isinstance(v, tuple):
                        ex = self.excluded(v, st)
                        vv = [x for x in vals if x not in ex] if len(vals) < 300 else list(vals)[:0] or list(vals)
                        if not vv:
                            continue
                    else:
                        vv = list(vals)
                    x = st.copy()
                    if isset(v):
                        keep = [y for y in v if not isinstance(y, int) or y in vals]
                        if not keep:
                            continue
                    self.switch_refine(s[2], v, vv, x)
                    ent[id(c)] = x
            rest = None
            if ps is not None:
                left = [x for x in ps if x not in matched]
                if left:
                    rest = st.copy()
                    self.switch_refine(s[2], v, left, rest)
            else:
                rest = st.copy()
                if isinstance(v, tuple) and v[0] in ("y", "t"):
                    if not self.restrict(v, rest, drop=dropped):
                        rest = None
                if rest is not None and s[4] and deflt is None:
                    # every enumerator has a case
                    rest = None
            if deflt is not None:
                if rest is not None:
                    ent[id(deflt)] = rest
            else:
                nodefault = rest
        ctx["entries"] = ent
        r = self.exec(s[3], None, ctx)
        r = join(r, ctx["brk"])
        r = join(r, nodefault)
        ctx["brk"] = obrk
        ctx["entries"] = oent
        return r

    def switch_refine(self, e, v, vals, st):
        if isinstance(v, tuple) and v[0] in ("y", "t"):
            self.restrict(v, st, keep=vals)
        elif isset(v):
            x = e
            while x[0] in ("icast", "cast"):
                x = x[4]
            self.refine_store(x, mkset([y for y in v if not isinstance(y, int) or y in vals] or [TOP]), st)

    def s_case(self, s, st, ctx):
        ent = ctx.get("entries") or {}
        st = join(st, ent.get(id(s)))
        return self.exec(s[5], st, ctx)

    def s_default(self, s, st, ctx):
        ent = ctx.get("entries") or {}
        st = join(st, ent.get(id(s)))
        return self.exec(s[2], st, ctx)

    def s_label(self, s, st, ctx):
        if "done" in ctx:
            ctx["done"].add(s[2])
        p = ctx["labels"].get(s[2])
        st = join(st, p)
        if st is not None:
            ctx["seen"][s[2]] = st.copy()
        return self.exec(s[3], st, ctx)

    def s_goto(self, s, st, ctx):
        if "done" in ctx and s[2] in ctx["done"]:
            ctx["back"][s[2]] = join(ctx["back"].get(s[2]), st)
            return None
        ctx["labels"][s[2]] = join(ctx["labels"].get(s[2]), st)
        return None

    def s_break(self, s, st, ctx):
        ctx["brk"] = join(ctx["brk"], st)
        return None

    def s_continue(self, s, st, ctx):
        ctx["cont"] = join(ctx["cont"], st)
        return None

    def s_ret(self, s, st, ctx):
        if s[2] is None:
            ctx["rets"].append((st, 0))
            return None
        e = s[2]
        # keep the correlation between a returned condition and the state
        x = e
        y, tobool = e, None
        while y[0] in ("icast", "cast") and y[3] in ("IntegralCast", "NoOp", "IntegralToBoolean"):
            tobool = tobool or (y if y[3] == "IntegralToBoolean" else None)
            y = y[4]
        if y[0] == "bin" and y[3] in ("&&", "||") or y[0] == "un" and y[3] == "!":
            x = y
        while x[0] in ("icast", "cast") and x[3] in ("IntegralCast", "NoOp"):
            x = x[4]
        if tobool is not None and y[0] == "call":
            ctx["rets"].extend((s2, self.castv(v, self.ty(tobool), "IntegralToBoolean")) for s2, v in self.call(y, st))
            return None
        if x[0] == "bin" and (x[3] in ("&&", "||")) or x[0] == "un" and x[3] == "!":
            t, f = self.cond(x, st)
            if t is not None:
                ctx["rets"].append((t, 1))
            if f is not None:
                ctx["rets"].append((f, 0))
            return None
        if x[0] == "cond":
            t, f = self.cond(x[3], st)
            if t is not None:
                self.s_ret(["ret", s[1], x[4]], t, ctx)
            if f is not None:
                self.s_ret(["ret", s[1], x[5]], f, ctx)
            return None
        if x[0] == "call":
            outs = self.call(x, st)
            ctx["rets"].extend(outs)
            return None
        v = self.eval(e, st)
        if self.dead(st):
            return None
        ctx["rets"].append((st, v))
        return None

    # ---- entry ---------------------------------------------------------
    def run(self, name, args, st=None, file=None):
        fn = self.resolve(name, file)
        if fn is None:
            from facts import AnalysisBroken
            raise AnalysisBroken("anchor function %s not found" % name)
        st = st or State()
        return self.call_fn(fn, args, st)

    def where(self, e=None):
        out = []
        for i, f in enumerate(self.stack):
            out.append(f[0]["name"])
        l = "%s:%s" % (self.stack[-1][0]["file"], e[1]) if e is not None and self.stack else "?"
        return l, out


def cellptr(base, path=()):
    return ("p", base, path)
