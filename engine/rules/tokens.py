"""C30: the scanner's decision tree over operator characters, the spelling of
every token, and the tables of names the compiler recognises."""
from rules.util import *
import absint
from absint import Interp, State
from facts import AnalysisBroken

P = lambda b, *p: ("p", b, tuple(p))

# the published spelling of every operator
OPS = {
    "&": "AMP", "@": "AT", "~": "BIT_NOT", "|": "BIT_OR", "^": "BIT_XOR", ":": "COLON", ",": "COMMA", "/": "DIV", ".": "DOT", ";": "EOS",
    "=": "EQ", ">": "GREATER", "{": "LBRACE", "[": "LBRACKET", "<": "LESS", "(": "LPAREN", "-": "MINUS", "%": "MOD", "!": "BANG", "+": "PLUS",
    "?": "QUESTION", "}": "RBRACE", "]": "RBRACKET", ")": "RPAREN", "*": "STAR", "&&": "AND", "->": "ARROW", "&=": "BIT_AND_ASSIGN",
    "|=": "BIT_OR_ASSIGN", "^=": "BIT_XOR_ASSIGN", "&&&": "CT_AND", "|||": "CT_OR", "+++": "CT_CONCAT", "/=": "DIV_ASSIGN", "..": "DOTDOT",
    "?:": "ELVIS", "==": "EQEQ", ">=": "GREATER_EQ", "=>": "IMPLIES", "<=": "LESS_EQ", "[<": "LVEC", "-=": "MINUS_ASSIGN", "--": "MINUSMINUS",
    "*=": "MULT_ASSIGN", "%=": "MOD_ASSIGN", "!=": "NOT_EQUAL", "||": "OR", "+=": "PLUS_ASSIGN", "++": "PLUSPLUS", "??": "QUESTQUEST",
    ">]": "RVEC", "::": "SCOPE", "<<": "SHL", ">>": "SHR", "!!": "BANGBANG", "...": "ELLIPSIS", "<<=": "SHL_ASSIGN", ">>=": "SHR_ASSIGN",
}
PRINT_ONLY = {"$": "DOLLAR", "#": "HASH", "_": "UNDERSCORE", "$$": "BUILTIN", "<*": "DOCS_START", "*>": "DOCS_END"}

KEYWORDS = """alias asm assert attrdef bitstruct break case catch const continue default defer do else enum extern false faultdef for foreach
foreach_r fn if inline interface import macro module nextcase null return static struct switch tlocal true try typedef typeid union var while
void any fault bool float128 double float bfloat float16 long ulong int128 uint128 int uint short ushort ichar char isz usz iptr uptr
$alignof $assert $assignable $case $default $defined $else $embed $endif $endswitch $endfor $endforeach $eval $evaltype $error $exec $extnameof
$feature $for $foreach $if $is_const $include $vacount $vatype $vaconst $vaarg $vaexpr $vasplat $nameof $offsetof $qnameof $sizeof $switch
$typefrom $typeof $stringify $echo""".split()

# names whose enumerator is not simply the upper-case name
BUILTIN_NAME = {"CTLZ": "clz", "CTTZ": "ctz", "EXACT_ADD": "add", "EXACT_DIV": "div", "EXACT_MOD": "mod", "EXACT_MUL": "mul", "EXACT_NEG": "neg",
                "EXACT_SUB": "sub", "MEMCOPY": "memcpy", "MEMCOPY_INLINE": "memcpy_inline", "WIDESTRING_16": "wstr16", "WIDESTRING_32": "wstr32"}

LOWER = [ord(c) for c in "abcdefghijklmnopqrstuvwxyz"]
UPPER = [ord(c) for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"]
DIGIT = [ord(c) for c in "0123456789"]
ALL = list(range(-128, 128))


def chars(s):
    return [ord(c) for c in s]


class Scan:
    """one abstract scan: the source is a sequence of character sets"""

    def __init__(self, F, entry, src, mode, keyword=None):
        W = World(F)
        st = W.st
        SRC, LX = ("V", "source"), ("O", "lexer")
        st.mem[LX] = {("~",): 0}
        for i, c in enumerate(src):
            st.setcell(SRC, (i,), c if isinstance(c, int) else mkset(set(c)))
        for k in ("current", "lexing_start", "line_start", "start_row_start", "file_begin"):
            st.setcell(LX, (k,), P(SRC, 0))
        st.setcell(LX, ("mode",), W.e(mode))
        self.errors = []
        self.added = []
        names = {}

        def m_err(I, a, s, e):
            self.errors.append(a)
            return ("y", "void")

        def m_add(I, a, s, e):
            self.added.append((a[0], a[1]))
            if keyword is not None:
                for b, p in I.deref(a[3], s) or ():
                    s.setcell(b, p, keyword)
            return ("y", "interned")

        def m_docs(I, a, s, e):
            s.setcell(LX, ("token_type",), ("y", "documentation"))
            return 1
        self.I = I = Interp(F, models={"sema_verror_range": m_err, "symtab_add": m_add}, on_call=None)
        I.unroll = 40
        I.precise_goto = True
        self.res = I.run(entry, [P(LX)], st)
        self.out = []
        rs = self.res if isinstance(self.res, list) else [self.res]
        for s, v in rs:
            g = lambda *p: I.load([(LX, tuple(p))], s)
            cur = g("current")
            pos = []
            for x in elems(cur):
                if isinstance(x, tuple) and x[0] == "p" and x[1] == SRC:
                    pos.append(x[2][-1] if x[2] else 0)
                else:
                    pos.append("?")
            pos = pos[0] if len(set(pos)) == 1 else tuple(sorted(map(str, pos)))
            self.out.append((v, g("token_type"), pos, g("data", "string"), g("data", "lex_len"), g("mode")))


def scan_entry(F):
    for n in ("lexer_scan_token_inner", "lexer_next_token"):
        if n in F.byname:
            return n
    raise AnalysisBroken("no entry to the scanner found")


def need_token(F, Rep, S, inst, tok, n):
    names = {v: k for k, v in F.enums["TokenType"]["vals"]} if isinstance(F.enums.get("TokenType"), dict) and F.enums["TokenType"]["vals"] and isinstance(F.enums["TokenType"]["vals"][0][1], int) else {}
    want = F.enumconst["TOKEN_" + tok]
    Rep.fn(*[a for a, _ in S.I.analysed])
    ok, why = bool(S.out), "nothing is produced"
    for v, t, pos, s, ln, mode in S.out:
        if t != want:
            ok, why = False, "token %s instead of TOKEN_%s" % (names.get(t, show(t)), tok)
        elif pos != n:
            ok, why = False, "%s characters are consumed instead of %d" % (pos, n)
        elif v != 1:
            ok, why = False, "the scan does not succeed"
        elif S.errors:
            ok, why = False, "an error is reported"
        elif ln != n:
            ok, why = False, "the token is given length %s instead of %d" % (show(ln), n)
    Rep.ob("scan", inst, ok, "lexer.c", why)


def operators(F, Rep):
    entry = scan_entry(F)
    for mode in ("LEX_NORMAL", "LEX_CONTRACTS"):
        table = dict(OPS)
        if mode == "LEX_CONTRACTS":
            table["*>"] = "DOCS_END"
        for w, tok in sorted(table.items()):
            cont = {ord(x[len(w)]) for x in table if len(x) == len(w) + 1 and x.startswith(w)}
            skip = set(cont)
            if mode == "LEX_NORMAL":
                skip |= {"/": set(chars("/*")), "<": set(chars("*"))}.get(w, set())
            if w == "@":
                skip |= set(LOWER + UPPER + chars("_"))
            src = chars(w) + [[c for c in ALL if c not in skip], ALL, ALL, ALL]
            S = Scan(F, entry, src, mode)
            need_token(F, Rep, S, "'%s' followed by anything that does not extend it%s" % (w, "" if mode == "LEX_NORMAL" else " (contract)"), tok, len(w))
            if w == "*>":
                Rep.ob("scan", "'*>' ends the contract", all(o[5] == F.enumconst["LEX_NORMAL"] for o in S.out), "lexer.c", "the mode stays at contracts")
    S = Scan(F, entry, chars("$$") + [LOWER + UPPER, ALL, ALL], "LEX_NORMAL")
    need_token(F, Rep, S, "'$$' before a letter", "BUILTIN", 2)
    # white space before a token is skipped, and comments
    for txt in (" ", "\t", "\n", "\f", "  \n\t", "// x\n", "/**/", "/* / */", "/* /* */ */", "/* ** * / */"):
        S = Scan(F, entry, chars(txt) + chars("+") + [[c for c in ALL if c not in chars("+=")], ALL, ALL], "LEX_NORMAL")
        for o in S.out:
            pass
        ok = bool(S.out) and all(o[1] == F.enumconst["TOKEN_PLUS"] and o[2] == len(txt) + 1 and o[4] == 1 for o in S.out) and not S.errors
        Rep.ob("space", "%r before a token" % txt, ok, "lexer.c", str(S.out)[:200])
    ident = set(LOWER + UPPER + DIGIT + [95])
    stop = [c for c in ALL if c not in ident]
    # identifiers: the kind follows from the case of the letters
    for pre, kinds in (("", ("IDENT", "CONST_IDENT", "TYPE_IDENT")), ("$", ("CT_IDENT", "CT_CONST_IDENT", "CT_TYPE_IDENT")),
                       ("#", ("HASH_IDENT", "HASH_CONST_IDENT", "HASH_TYPE_IDENT")), ("@", ("AT_IDENT", "AT_CONST_IDENT", "AT_TYPE_IDENT"))):
        U, Wd = [95], LOWER
        low = [c for c in LOWER if c not in chars("xb")] if not pre else LOWER
        rest = LOWER + UPPER + DIGIT + [95]
        shapes = [([low], 0), ([low, rest, rest], 0), ([U, LOWER, rest], 0), ([U, U, LOWER], 0), ([UPPER], 1), ([UPPER, UPPER + DIGIT + U], 1),
                  ([U, UPPER, U, DIGIT], 1), ([UPPER, LOWER], 2), ([UPPER, UPPER + DIGIT + U, LOWER, rest], 2), ([U, UPPER, LOWER, UPPER], 2)]
        if not pre:
            shapes += [([chars("x"), [c for c in rest]], 0), ([chars("b"), [c for c in rest if c != ord("6")]], 0), ([chars("b"), chars("6"), chars("5")], 0)]
        for shp, k in shapes:
            src = chars(pre) + shp + [stop, ALL, ALL]
            S = Scan(F, entry, src, "LEX_NORMAL")
            desc = pre + "".join("l" if set(x) <= set(LOWER) else "U" if set(x) <= set(UPPER) else "_" if x == U else "9" if x == DIGIT else "*" for x in shp)
            n = len(pre) + len(shp)
            need_token(F, Rep, S, "name of the form %s" % desc, kinds[k], n)
            ok = bool(S.added) and all(isinstance(a, tuple) and a[0] == "p" and (a[2] == (0,)) and l == n for a, l in S.added)
            Rep.ob("intern", "name of the form %s" % desc, ok, "lexer.c", "the text looked up is not the text scanned: %s" % (S.added[:2],))
            for name in ("WHILE", "RETURN"):
                kw = F.enumconst["TOKEN_" + name]
                S = Scan(F, entry, src, "LEX_NORMAL", keyword=kw)
                Rep.ob("keyword", "keyword of the form %s found as %s" % (desc, name.lower()), bool(S.out) and all(o[1] == kw for o in S.out), "lexer.c", "the token found in the symbol table is not used")
        # a digit before the first letter, or no letter at all
        for shp in ([U, DIGIT], [U, DIGIT, LOWER], [U, U, DIGIT, UPPER], [U, U]):
            S = Scan(F, entry, chars(pre) + shp + [stop, ALL, ALL], "LEX_NORMAL")
            desc = pre + "".join("l" if x == LOWER else "U" if x == UPPER else "_" if x == U else "9" for x in shp)
            Rep.ob("scan", "a name of the form %s is refused" % desc, bool(S.errors) and not S.added and all(o[0] == 0 for o in S.out), "lexer.c", "it is scanned as a token")


def spellings(F, Rep):
    W = World(F)
    ec = F.enumconst
    want = {"TOKEN_" + t: s for s, t in list(OPS.items()) + list(PRINT_ONLY.items())}
    for k in KEYWORDS:
        want[("TOKEN_CT_" + k[1:].upper()) if k[0] == "$" else "TOKEN_" + k.upper()] = k
    seen = {}
    for n, v in F.enums["TokenType"]["vals"]:
        if n in ("TOKEN_LAST", "TOKEN_FIRST_KEYWORD", "TOKEN_LAST_KEYWORD") or n.startswith("TOKEN_FIRST") or n.startswith("TOKEN_LAST"):
            continue
        I = Interp(F)
        r = I.run("token_type_to_string", [v], State())
        rs = r if isinstance(r, list) else [r]
        Rep.fn(*[a for a, _ in I.analysed])
        vals = {x for _, o in rs for x in elems(o)}
        txt = next(iter(vals))[1] if len(vals) == 1 and isinstance(next(iter(vals)), tuple) and next(iter(vals))[0] == "s" else None
        if n in want:
            Rep.ob("spelling", "%s prints as %s" % (n, want[n]), txt == want[n], "tokens.c", "prints %r" % (txt,))
        else:
            Rep.ob("spelling", "%s has a printed form" % n, txt is not None, "tokens.c", "none")
        if txt is not None:
            Rep.ob("unique", "%s shares its printed form with no other token" % n, txt not in seen, "tokens.c", "%r is also %s" % (txt, seen.get(txt)))
            seen.setdefault(txt, n)
    for n in want:
        if n not in ec:
            Rep.ob("spelling", "%s exists" % n, False, "enums.h", "no such token")


def tables(F, Rep):
    """the symbol table as it is after initialisation"""
    ec = F.enumconst
    W = World(F)
    added = []

    def m_add(I, a, s, e):
        t = I.load(I.deref(a[3], s), s)
        added.append((a[0], a[1], a[2], t))
        return a[0]

    def m_strlen(I, a, s, e):
        if isinstance(a[0], tuple) and a[0][0] == "s":
            return len(a[0][1])
        return NotImplemented

    def m_fnv(I, a, s, e):
        return ("t", "hash", (a[0], a[1]))

    def quiet(I, a, s, e):
        return ("y", "quiet")

    def stop(I, a, s, e):
        return None
    I = Interp(F, models={"symtab_add": m_add, "strlen": m_strlen, "fnv1a": m_fnv, "malloc": quiet, "calloc": quiet, "memset": quiet, "next_highest_power_of_2": lambda I, a, s, e: a[0],
                          "error_exit": stop, "exit_fail": stop})
    I.unroll = 400
    rs = I.run("symtab_init", [0x10000], W.st)
    rs = rs if isinstance(rs, list) else [rs]
    Rep.fn(*[a for a, _ in I.analysed])
    if not rs:
        raise AnalysisBroken("symtab_init has no result")
    st = rs[0][0]
    txt = lambda v: v[1] if isinstance(v, tuple) and v[0] == "s" else None
    kinds = {}
    for d, ln, h, t in added:
        s = txt(d)
        Rep.ob("interned", "%s is entered with its own length and hash" % s, s is not None and ln == len(s) and h == ("t", "hash", (d, ln)), "symtab.c", "length %s, hash of %s" % (show(ln), show(h)))
        kinds.setdefault(s, t)
    for k in KEYWORDS:
        tok = ("TOKEN_CT_" + k[1:].upper()) if k[0] == "$" else "TOKEN_" + k.upper()
        Rep.ob("keyword-token", "%s is scanned as %s" % (k, tok), kinds.get(k) == ec[tok], "symtab.c", "it is %s" % (kinds.get(k),))
    for enum, prefix, table, at, special, kind in (("BuiltinFunction", "BUILTIN_", "builtin_list", "", BUILTIN_NAME, "TOKEN_IDENT"),
                                                   ("AttributeType", "ATTRIBUTE_", "attribute_list", "@", {}, "TOKEN_AT_IDENT"),
                                                   ("TypeProperty", "TYPE_PROPERTY_", "type_property_list", "", {}, "TOKEN_IDENT"),
                                                   ("BuiltinDefine", "BUILTIN_DEF_", "builtin_defines", "", {}, "TOKEN_CONST_IDENT")):
        bound = {"builtin_list": "NUMBER_OF_BUILTINS", "attribute_list": "NUMBER_OF_ATTRIBUTES", "type_property_list": "NUMBER_OF_TYPE_PROPERTIES", "builtin_defines": "NUMBER_OF_BUILTIN_DEFINES"}[table]
        vals = [(n, v) for n, v in F.enumconst.items() if v < ec[bound] and n.startswith(prefix) and not (prefix == "BUILTIN_" and n.startswith("BUILTIN_DEF_"))]
        n = 0
        for name, v in sorted(vals):
            if name.endswith("_NONE"):
                continue
            short = name[len(prefix):]
            want = at + special.get(short, short.lower() if prefix != "BUILTIN_DEF_" else short)
            got = txt(I.load([(("G", table), (v,))], st))
            n += 1
            Rep.ob("name", "%s is named %s" % (name, want), got == want, "symtab.c", "it is named %r" % (got,))
            if got == want:
                Rep.ob("name-kind", "%s is entered as the kind of name it is scanned as" % want, kinds.get(want) == ec[kind] or want in KEYWORDS, "symtab.c", "it is entered as token %s" % (kinds.get(want),))
        Rep.ob("name", "every entry of %s has a name" % table, n == ec[bound], "symtab.c", "%d of %d" % (n, ec[bound]))


def c30(F, Rep):
    old, absint.LIMIT = absint.LIMIT, 300     # sets of characters stay exact
    try:
        operators(F, Rep)
    finally:
        absint.LIMIT = old
    spellings(F, Rep)
    tables(F, Rep)
    Rep.need("scan", 150)
    Rep.need("spelling", 180)
    Rep.need("name", 180)
