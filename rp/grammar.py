"""
Grammar ASTs, their generators, their realisation as reparsec parsers (through
the public API only) and a sentence sampler.

Nothing here knows what a parser *should* do: see model.py / cfg.py.
"""
import re
import zlib

# ------------------------------------------------------------------ values


def canon(v):
    """Canonical, hashable, type-strict form of a parsed value."""
    t = type(v)
    if t is str or t is int or t is bool or v is None:
        return (t.__name__, v)
    if t is float:
        return ("float", repr(v))
    if t is list:
        return ("L",) + tuple([canon(x) for x in v])
    if t is tuple:
        return ("T",) + tuple([canon(x) for x in v])
    if hasattr(v, "kind") and hasattr(v, "value") and hasattr(v, "start"):
        return ("Tok", v.kind, v.value, tuple(v.start), tuple(v.end))
    if callable(v):
        return ("fn", getattr(v, "_canon", None))
    if hasattr(v, "canon_key"):
        return ("el",) + v.canon_key
    if t is frozenset:
        return ("fs",) + tuple(sorted(map(repr, v)))
    return ("obj", t.__name__, repr(v))


ODD_LABELS = (
    " L", "L ", " ", "two\twords", "line\nbreak", "{}", "{{x}}", "%s", "é∑",
    "end of file", "x" * 70, "\u200b", "0", "None",
)


def some_label(src, common):
    """One of the common labels, sometimes an odd one."""
    if src.chance(6):
        return src.pick(ODD_LABELS)
    return src.pick(common)


def bind_key(cv, n):
    return zlib.crc32(repr(cv).encode("utf-8", "backslashreplace")) % n


# fmap functions, by name: (python function, function on canonical values)
FALSY = (None, 0, "", False, (), 0.0)
# values that make an operator of a chain return something unusual
QUIRKS = ("op:none", "op:left", "op:right", "op:zero", "op:pair", "op:fn")
CONSTS = FALSY + QUIRKS


def fmap_fn(spec):
    k = spec[0]
    if k == "tag":
        return lambda v, _t=spec[1]: ("f", _t, v)
    if k == "id":
        return lambda v: v
    if k == "const":
        return lambda v, _c=CONSTS[spec[1]]: _c
    if k == "list":
        return lambda v: [v]
    raise AssertionError(spec)


def fmap_canon(spec, cv):
    k = spec[0]
    if k == "tag":
        return ("T", ("str", "f"), canon(spec[1]), cv)
    if k == "id":
        return cv
    if k == "const":
        return canon(CONSTS[spec[1]])
    if k == "list":
        return ("L", cv)
    raise AssertionError(spec)


class Op:
    """Operator value for chains; applies to build a visible tree."""

    __slots__ = ("_canon", "v", "hook")

    def __init__(self, v, hook=None):
        self.v = v
        self.hook = hook
        self._canon = canon(v)

    def __call__(self, left, right):
        if self.hook is not None:
            self.hook("operator")
        v = self.v
        if type(v) is str and v in QUIRKS:
            k = QUIRKS.index(v)
            if k == 4:
                return (left, right)
            return (None, left, right, 0, None, self)[k]
        return ("op", v, left, right)


def rwf_value(kind, stream_len, pos):
    """Value produced by recover_with_fn functions."""
    if kind == "pos":
        return ("rf", pos, stream_len)
    if kind == "none":
        return None
    return "rf%s" % pos


# ------------------------------------------------------------------ nodes


class N:
    __slots__ = ("kind", "args", "nullable", "needs_guard", "sp")

    def __init__(self, kind, args, nullable, needs_guard=False, sp=0):
        self.kind = kind
        self.args = args
        self.nullable = nullable
        self.needs_guard = needs_guard
        self.sp = sp

    def __repr__(self):
        return show(self)


def show(n):
    if isinstance(n, N):
        return "%s(%s)" % (n.kind, ", ".join(show(a) for a in n.args))
    if isinstance(n, (list, tuple)) and any(
            isinstance(x, N) for x in n):
        return "[%s]" % ", ".join(show(x) for x in n)
    return repr(n)


class G:
    """A grammar: rules (for forward references), a start node, a domain."""

    __slots__ = ("rules", "rule_nn", "start", "dom")

    def __init__(self, dom):
        self.rules = []
        self.rule_nn = []
        self.start = None
        self.dom = dom

    def show(self):
        s = show(self.start)
        for i, r in enumerate(self.rules):
            s += "; R%d=%s" % (i, show(r))
        return s


def walk(g):
    """All distinct nodes of a grammar."""
    seen = set()
    out = []

    def go(x):
        if isinstance(x, N):
            if id(x) in seen:
                return
            seen.add(id(x))
            out.append(x)
            for a in x.args:
                go(a)
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)

    go(g.start)
    for r in g.rules:
        go(r)
    return out


def kinds(g):
    return {n.kind for n in walk(g)}


def children(n):
    """Direct sub-parsers in application order."""
    k, a = n.kind, n.args
    if k in ("seq", "seql", "seqr", "alt", "sep_by", "chainl1", "chainr1"):
        return [a[0], a[1]]
    if k == "between":
        return [a[0], a[1], a[2]]
    if k == "tuple":
        return list(a[0])
    if k == "bind":
        return [a[0]] + list(a[1])
    if k == "indented":
        return [a[1]]
    return [x for x in a if isinstance(x, N)]


# constructors computing nullable / needs_guard ---------------------------


def mk_seq(kind, a, b, sp=0):
    return N(kind, (a, b), a.nullable and b.nullable,
             a.needs_guard or (a.nullable and b.needs_guard), sp)


def mk_alt(a, b, sp=0):
    return N("alt", (a, b), a.nullable or b.nullable,
             a.needs_guard or b.needs_guard, sp)


def mk_un(kind, p, *extra, nullable=None, sp=0):
    return N(kind, (p,) + extra,
             p.nullable if nullable is None else nullable, p.needs_guard, sp)


def mk_tuple(ps, applied, sp=0):
    nullable = all(p.nullable for p in ps)
    ng = False
    for p in ps:
        ng = ng or p.needs_guard
        if not p.nullable:
            break
    return N("tuple", (tuple(ps), applied), nullable, ng, sp)


def mk_between(o, c, p, sp=0):
    nullable = o.nullable and c.nullable and p.nullable
    ng = o.needs_guard
    if o.nullable:
        ng = ng or p.needs_guard
        if p.nullable:
            ng = ng or c.needs_guard
    return N("between", (o, p, c), nullable, ng, sp)


def mk_bind(p, table, sp=0):
    return N("bind", (p, tuple(table)),
             p.nullable and any(t.nullable for t in table),
             p.needs_guard or (
                 p.nullable and any(t.needs_guard for t in table)), sp)


def mk_rep(kind, p, sep, sp=0):
    """sep_by / chainl1 / chainr1: p (sep p)*"""
    ng = p.needs_guard or (p.nullable and sep.needs_guard)
    return N(kind, (p, sep), True if kind == "sep_by" else p.nullable, ng, sp)


def mk_indented(d, p, sp=0):
    return N("indented", (d, p), p.nullable, p.needs_guard, sp)


# ------------------------------------------------------------------ domains


PREDS = {
    "isalpha": str.isalpha,
    "isdigit": str.isdigit,
    "isspace": str.isspace,
    "any": lambda t: True,
    "never": lambda t: False,
}


LETTERS = ("a", "z", "Q", "a", "\u00aa", "\u4e2d", "\u00df", "\U0001d538")
DIGITS = ("1", "2", "0", "9", "\u00b2", "\u0663", "\u2460", "\U0001d7d8")


def pred_fn(spec):
    if isinstance(spec, str):
        return PREDS[spec]
    # ("in", [elements]) : membership by == , element order irrelevant
    els = spec[1]
    if len(els) % 2:
        # a truth value that is not a bool: [] or the list of matches
        return lambda t: [e for e in els if t == e]
    return lambda t: any(t == e for e in els)


class Dom:
    pass


def run_len(src, small):
    """Length of a run of junk: usually small, rarely big."""
    if src.chance(4):
        return src.rng_int(1, 400 if src.chance(25) else 40)
    return src.rng_int(1, small)


class SeqDom(Dom):
    """Sequences of arbitrary elements."""

    name = "seq"
    ALPHABETS = (
        tuple("ab"),
        tuple("abc"),
        tuple("abcd,;()"),
        (0, 1, 2, 3),
        (None, 0, "", False, "a", 1),
        (True, 1, 1.0, False, 0, 2),
        ((), ("a",), ("a", "b"), "a"),
        tuple("xyz"),
    )

    def __init__(self, src, chars_only=False):
        if chars_only:
            self.alpha = src.pick((tuple("ab"), tuple("abc"),
                                   tuple("abcd,;()"), tuple("xyz"),
                                   tuple("ab1 2"), tuple("aé∑b")))
        else:
            self.alpha = src.weighted([
                (4, self.ALPHABETS[1]), (3, self.ALPHABETS[0]),
                (4, self.ALPHABETS[2]), (1, self.ALPHABETS[3]),
                (2, self.ALPHABETS[4]), (1, self.ALPHABETS[5]),
                (1, self.ALPHABETS[6]), (1, self.ALPHABETS[7]),
            ])
        self.chars = all(type(x) is str and len(x) == 1 for x in self.alpha)
        self.junk = "~" if self.chars else ("junk",)

    def label(self, src):
        return some_label(src, (
            None, None, None, "L", "a thing", "x, y", "'a'", ""))

    def leaf(self, src, nn):
        k = src.weighted([
            (10, "sym"), (4, "satisfy"), (1, "class"),
        ])
        if k == "class" and self.chars:
            return N(src.pick(("letter", "digit")), (), False)
        if k == "satisfy":
            if self.chars and src.chance(30):
                return N("satisfy", (src.pick(
                    ("isalpha", "isdigit", "isspace", "any", "never")),),
                    False)
            els = [x for x in self.alpha if src.chance(40)]
            return N("satisfy", (("in", tuple(els or self.alpha[:1])),), False)
        lab = self.label(src) if src.chance(25) else None
        return N("sym", (src.pick(self.alpha), lab), False)

    def sample_leaf(self, n, src, out, mark):
        k = n.kind
        if k == "sym":
            out.append(n.args[0])
        elif k == "satisfy":
            sp = n.args[0]
            if isinstance(sp, str):
                ok = [x for x in self.alpha if pred_fn(sp)(x)]
                if not ok:
                    ok = {"isalpha": ["q"], "isdigit": ["7"],
                          "isspace": [" "]}.get(sp, [])
                if ok:
                    out.append(src.pick(ok))
            else:
                out.append(src.pick(sp[1]))
        elif k == "letter":
            out.append(src.pick(LETTERS))
        elif k == "digit":
            out.append(src.pick(DIGITS))

    def rand_el(self, src):
        if src.chance(12):
            if self.chars and src.chance(25):
                return src.pick(ODD_CHARS)
            return self.junk
        return src.pick(self.alpha)

    def new_out(self):
        return []

    def mutate(self, src, toks, amount=None):
        toks = list(toks)
        k = amount if amount is not None else src.weighted(
            [(4, 1), (3, 0), (3, 2), (2, 3), (1, 5)])
        for _ in range(k):
            op = src.below(6)
            i = src.below(len(toks) + 1)
            if op == 0:
                del toks[i:i + 1]
            elif op == 1:
                toks.insert(i, self.rand_el(src))
            elif op == 2 and i < len(toks):
                toks[i] = self.rand_el(src)
            elif op == 3:
                j = src.below(len(toks) + 1)
                toks[min(i, j):max(i, j)] = []
            elif op == 4:
                toks[i:i] = [self.junk] * run_len(src, 4)
            elif i + 1 < len(toks):
                toks[i], toks[i + 1] = toks[i + 1], toks[i]
        return toks

    def finish(self, out):
        """Sampled pieces -> stream."""
        return list(out)

    def random_input(self, src):
        return [self.rand_el(src) for _ in range(src.below(7))]


REGEXPS = (
    # pattern, group, nullable, samples
    (r"\d+", 0, False, ("1", "42", "007")),
    (r"[a-z]+", 0, False, ("a", "ab", "xyz")),
    (r"\s+", 0, False, (" ", "\n", "  ", "\n ", "\t")),
    (r"\s*", 0, True, ("", " ", "\n", " \n  ")),
    (r"(a)|b", 1, False, ("a", "b")),
    (r"(?P<x>\d)(?P<y>[a-z])?", "y", False, ("1a", "1", "2b")),
    (r"(?P<x>\d)(?P<y>[a-z])?", "x", False, ("1a", "1", "2b")),
    (r"(?=a)", 0, True, ("",)),
    (r"a*", 0, True, ("", "a", "aa")),
    (r"\n *", 0, False, ("\n", "\n  ")),
    (r"(a*)b?", 1, True, ("", "b", "aab")),
    (r"\b[ab]+", 0, False, ("ab", "a")),
    (r"^a", 0, False, ("a",)),
    (r"[^\n,;]+", 0, False, ("a b", "x1", "é")),
    (r"(\d+)\s*", 1, False, ("3", "4 ", "5\n")),
    (r"(?:(x)|(y))z", 2, False, ("xz", "yz")),
    (r"a(?!b)", 0, False, ("a",)),
    (r"\r?\n", 0, False, ("\n", "\r\n")),
    (r"\s*$", 0, True, ("",)),
    (r"a|$", 0, True, ("a", "")),
    (r"(?<=a)b|c", 0, False, ("c", "b")),
    (r"(?i)ab", 0, False, ("AB", "ab", "aB")),
    (r"(?s).", 0, False, ("\n", "z")),
    (r"(?m)^ *x?", 0, True, ("", "x", " x")),
)
LITERALS = ("a", "b", "ab", "aa", "(", ")", ",", ";", "\n", "if", "else",
            "é", "x\ny", "1", " ", "aba", "'", "::", "function", "abcdefgh",
            "endif", "begin\nend", "aaaaa")
# characters on which the readings of "letter" and "digit" differ: decimal
# digits of other scripts, superscripts, numerals that are no digits, letters
# without case, combining marks, non-BMP letters
ODD_CHARS = ("\u00b2", "\u0663", "\u00bd", "\u2167", "\u2460", "\u00aa",
             "\u4e2d", "\u02b0", "\u0301", "_", "\U0001d538", "\U0001d7d8",
             "\u00df", "\u0130", "\u200b", "\u00a0", "\u1680", "\ufeff",
             "\0", "\x1a", "\x7f", "\x1c", "\x85", "\u2028", "\ud800",
             "\U0001f468", "\u200d", "\x0b", "\x0c")


class TextDom(Dom):
    """Scannerless parsing of strings."""

    name = "text"

    def __init__(self, src, regexps=True):
        self.lits = [x for x in LITERALS if src.chance(35)] or ["a"]
        self.res = [x for x in REGEXPS if src.chance(35)] or [REGEXPS[0]]
        self.regexps = regexps
        self.junk = "~"
        self.layout_ok = True

    def label(self, src):
        return some_label(src, (
            None, None, None, "L", "a thing", "x, y"))

    def leaf(self, src, nn):
        k = src.weighted([
            (6, "literal"), (6 if self.regexps else 1, "regexp"), (2, "sym"),
            (1, "satisfy"), (1, "class"),
        ])
        if k == "literal":
            return N("literal", (src.pick(self.lits),), False)
        if k == "regexp" and self.regexps:
            pat, grp, nullable, samples = src.pick(self.res)
            if nullable and nn:
                pat, grp, nullable, samples = REGEXPS[src.below(3)]
            return N("regexp", (pat, grp, samples), nullable)
        if k == "satisfy":
            return N("satisfy", (src.pick(
                ("isalpha", "isdigit", "isspace", "any", "never")),), False)
        if k == "class":
            return N(src.pick(("letter", "digit")), (), False)
        return N("sym", (src.pick("ab,(\n1"), self.label(src)), False)

    def sample_leaf(self, n, src, out, mark):
        k = n.kind
        if k == "literal":
            out.append(n.args[0])
        elif k == "regexp":
            out.append(src.pick(n.args[2]))
        elif k == "sym":
            out.append(n.args[0])
        elif k == "satisfy":
            out.append({"isalpha": "q", "isdigit": "7", "isspace": " ",
                        "any": "!"}.get(n.args[0], ""))
        elif k == "letter":
            out.append(src.pick(LETTERS))
        elif k == "digit":
            out.append(src.pick(DIGITS))

    def rand_el(self, src):
        if src.chance(5):
            return src.pick(ODD_CHARS)
        return src.pick(("~", "a", "b", "\n", " ", "1", ",", "(", "é", ")",
                         "\r", "\t", "x"))

    def finish(self, out):
        return "".join(out)

    def mutate(self, src, s, amount=None):
        toks = list(s)
        k = amount if amount is not None else src.weighted(
            [(4, 1), (3, 0), (3, 2), (2, 3), (1, 5)])
        if amount is None and src.chance(12):
            # the input breaks off
            del toks[max(0, len(toks) - 1 - src.below(7)):]
            k = 0
        for _ in range(k):
            op = src.below(7)
            i = src.below(len(toks) + 1)
            if op == 0:
                del toks[i:i + 1]
            elif op == 1:
                toks.insert(i, self.rand_el(src))
            elif op == 2 and i < len(toks):
                toks[i] = self.rand_el(src)
            elif op == 3:
                j = src.below(len(toks) + 1)
                toks[min(i, j):max(i, j)] = []
            elif op == 4:
                toks[i:i] = ["~"] * run_len(src, 4)
            elif op == 5:
                toks[i:i] = ["\n"] + [" "] * src.below(5)
            elif i + 1 < len(toks):
                toks[i], toks[i + 1] = toks[i + 1], toks[i]
        return "".join(toks)

    def random_input(self, src):
        return "".join(self.rand_el(src) for _ in range(src.below(9)))


SPECS = (
    # name, pattern, {kind: source samples}
    ("s1", r"(?P<num>\d+)|(?P<id>[a-z]+)|(?P<op>[-+*/(),:;=])|\s+|(?P<bad>.)",
     {"num": ("1", "23"), "id": ("a", "bc"), "op": ("+", "(", ")", ",", ";")}),
    ("s2", r'"(?P<str>[^"\n]*)"|(?P<nl>\n)|[ \t]+|#[^\n]*|(?P<w>\w+)'
           r'|(?P<p>[^\w\s])',
     {"str": ('"q"', '""', '"a b"'), "nl": ("\n",), "w": ("a", "b1"),
      "p": (",", "(", ")")}),
    ("s3", r"(?P<n>(-)?(\d+)(\.\d+)?)|(?P<k>if|else)|(?P<i>[a-z]\w*)"
           r"|(?P<o>==?|[()])|(?:\s|//[^\n]*)+",
     {"n": ("1", "-2", "3.5"), "k": ("if", "else"), "i": ("x", "y1"),
      "o": ("=", "==", "(", ")")}),
    # tokens over several lines, groups narrower than the match, like kinds
    ("s4", r"'(?P<t>[^']*)'|(?P<T>[A-Z]+)|(?P<t_x>[a-z]+)|(?P<tt>\d+)[;\n]?"
           r"|/\*(?:[^*]|\*(?!/))*\*/|(?P<p>[^\w\s])|\s+",
     {"t": ("'a'", "''", "'a\nb'", "'\n'", "'\n\n  c'"),
      "T": ("A", "IF"), "t_x": ("a", "if"), "tt": ("1", "22;", "3\n"),
      "p": ("(", ",", ")", "+")}),
)
_SPEC_RE = {name: re.compile(pat) for name, pat, _ in SPECS}


class TokDom(Dom):
    """Token streams produced by the lexer from source text."""

    name = "tok"

    def __init__(self, src):
        self.spec = src.pick(SPECS)
        self.re = _SPEC_RE[self.spec[0]]
        self.kinds = sorted(self.spec[2])
        self.layout_ok = True

    def label(self, src):
        return some_label(src, (None, "L", "'('", "a thing"))

    def _tokval(self, src, kind):
        s = src.pick(self.spec[2][kind])
        m = self.re.match(s)
        return m.group(kind)

    def leaf(self, src, nn):
        k = src.weighted([(6, "token"), (4, "symtok"), (3, "token_ins"),
                          (1, "satisfy")])
        kind = src.pick(self.kinds)
        if k == "token":
            return N("token", (kind,), False)
        if k == "token_ins":
            return N("token_ins", (kind, src.pick(("a", "0", "", "zz"))),
                     False)
        if k == "satisfy":
            return N("satisfy", (("val", self._tokval(src, kind)),), False)
        return N("symtok", (kind, self._tokval(src, kind), self.label(src)),
                 False)

    def sample_leaf(self, n, src, out, mark):
        k = n.kind
        if k in ("token", "token_ins"):
            piece = src.pick(self.spec[2][n.args[0]])
        elif k == "symtok":
            piece = n.args[1]
            if n.args[0] == "str":
                piece = '"%s"' % piece
            elif n.args[0] == "t":
                piece = "'%s'" % piece
        else:
            piece = n.args[0][1]
        sep_draw = src.below(12)
        if out and not (out[-1].endswith("\n") and sep_draw):
            out.append(" " if sep_draw < 10 else "\n " if sep_draw == 10
                       else "   ")
        elif not out and sep_draw >= 9:
            out.append("  " if sep_draw == 9 else "\n ")
        out.append(piece)

    def rand_el(self, src):
        return src.pick((" ", "a", "1", "(", ")", "\n", ",", "if", "+", "  ",
                         "=", '"', "\t", "~", "IF", "'"))

    def finish(self, out):
        return "".join(out)

    def mutate(self, src, s, amount=None):
        toks = re.findall(r"\s+|\w+|.", s, re.S)
        k = amount if amount is not None else src.weighted(
            [(4, 1), (3, 0), (3, 2), (2, 3), (1, 5)])
        for _ in range(k):
            op = src.below(7)
            i = src.below(len(toks) + 1)
            if op == 0:
                del toks[i:i + 1]
            elif op == 1:
                toks.insert(i, " " + self.rand_el(src) + " ")
            elif op == 2 and i < len(toks):
                toks[i] = self.rand_el(src)
            elif op == 3:
                j = src.below(len(toks) + 1)
                toks[min(i, j):max(i, j)] = []
            elif op == 4:
                toks[i:i] = [" ,"] * run_len(src, 3)
            elif op == 5:
                toks[i:i] = ["\n" + " " * src.below(5)]
            elif i + 1 < len(toks):
                toks[i], toks[i + 1] = toks[i + 1], toks[i]
        return "".join(toks)

    def random_input(self, src):
        return "".join(self.rand_el(src) for _ in range(src.below(9)))


# ------------------------------------------------------------------ generator

LAYOUT_KINDS = ("aligned", "indented", "block")


class Gen:
    """
    Random well-formed grammars: no left recursion, repetition bodies always
    consume input (the documented preconditions of the library).
    """

    OPS = (
        # (weight, name)
        (10, "seq"), (5, "seql"), (5, "seqr"), (4, "tuple"), (12, "alt"),
        (6, "maybe"), (7, "many"), (5, "sep_by"), (4, "between"),
        (3, "chainl1"), (2, "chainr1"), (5, "attempt"), (6, "label"),
        (4, "fmap"), (4, "bind"), (5, "recover"), (6, "recover_with"),
        (4, "recover_with_fn"), (4, "altn"),
    )

    def __init__(self, src, dom, exclude=(), layout=False, n_rules=None,
                 boost=None, max_depth=4):
        self.src = src
        self.g = G(dom)
        self.dom = dom
        self.pool = []
        ex = set(exclude)
        # swarm: drop a random subset of features
        swarm = src.chance(50)
        ops = []
        for w, name in self.OPS:
            if name in ex:
                continue
            if swarm and name not in ("seq", "alt") and src.chance(45):
                continue
            if boost and name in boost:
                w *= boost[name]
            ops.append((w, name))
        if layout:
            ops += [(6, "aligned"), (5, "indented"), (5, "block")]
        if not any(n == "seq" for _, n in ops):
            ops.append((5, "seq"))
        self.ops = ops
        self.exclude = ex
        self.layout = layout
        self.max_depth = max_depth
        if n_rules is None:
            n_rules = src.weighted([(5, 0), (4, 1), (1, 2)])
        self.n_rules = n_rules

    def grammar(self, eof=None):
        src = self.src
        g = self.g
        for _ in range(self.n_rules):
            g.rule_nn.append(src.chance(70))
            g.rules.append(None)
        depth = src.weighted([(4, 3), (3, 2), (3, 4), (1, 1)])
        depth = min(depth, self.max_depth)
        for i in range(self.n_rules):
            self.pool = []
            g.rules[i] = self.node(g.rule_nn[i], False, depth)
        self.pool = []
        start = self.stack() if src.chance(12) else \
            self.node(False, False, depth)
        if eof is None:
            eof = src.chance(75)
        if eof:
            start = mk_seq("seql", start, N("eof", (), True))
        g.start = start
        return g

    # nn: must not succeed without consuming; guarded: input certainly
    # consumed since the start of the enclosing rule
    def node(self, nn, guarded, depth):
        src = self.src
        if depth <= 0 or src.chance(18):
            return self.leaf(nn, guarded)
        if self.pool and src.chance(10):
            cands = [p for p in self.pool
                     if not (nn and p.nullable)
                     and not (p.needs_guard and not guarded)]
            if cands:
                return src.pick(cands)
        n = self._comp(nn, guarded, depth)
        assert not (nn and n.nullable), show(n)
        assert not (n.needs_guard and not guarded), show(n)
        if len(self.pool) < 8:
            self.pool.append(n)
        return n

    STACK = (
        (5, "attempt"), (3, "recover"), (5, "recover_with"),
        (2, "recover_with_fn"), (3, "label"), (1, "fmap"), (4, "altl"),
        (6, "altr"), (3, "maybe"), (3, "many"), (2, "bind"), (4, "pre"),
        (4, "post"), (2, "sep_by"),
    )

    def stack(self):
        """
        A tower of combinators around one short sequence: few leaves, so that
        every pairing of neighbours meets inputs that reach it.
        """
        src = self.src
        dom = self.dom

        def leaf():
            return dom.leaf(src, True)

        def short():
            n = leaf()
            for _ in range(src.below(3)):
                n = mk_seq(self._seq_kind(), n, leaf())
            return n

        ops = [x for x in self.STACK if x[1] not in self.exclude
               and not (x[1] in ("altl", "altr") and "alt" in self.exclude)]
        if self.layout:
            ops += [(3, "aligned"), (2, "indented"), (3, "block")]
        n = mk_seq(self._seq_kind(), leaf(), leaf()) if src.chance(75) \
            else leaf()
        for _ in range(src.rng_int(2, 6)):
            k = src.weighted(ops) if ops else "pre"
            sp = src.below(3)
            if k in ("attempt", "recover"):
                n = mk_un(k, n, sp=sp)
            elif k == "recover_with":
                n = mk_un(k, n, src.pick(("R",) + FALSY),
                          src.pick((None, "rlab")), sp=sp)
            elif k == "recover_with_fn":
                n = mk_un(k, n, src.pick(("pos", "str", "none")),
                          src.pick((None, "flab")), sp=sp)
            elif k == "label":
                n = mk_un(k, n, src.pick(("lbl", "M", "'a'")), sp=sp)
            elif k == "fmap":
                n = mk_un(k, n, ("tag", 1), sp=sp)
            elif k in ("altl", "altr"):
                o = short()
                if "attempt" not in self.exclude and src.chance(40):
                    o = mk_un("attempt", o)
                if "recover_with" not in self.exclude and src.chance(15):
                    o = mk_un("recover_with", o, "S", None)
                n = mk_alt(n, o, sp) if k == "altl" else mk_alt(o, n, sp)
            elif k == "maybe":
                n = mk_seq(self._seq_kind(),
                           mk_un("maybe", n, nullable=True, sp=sp), short())
            elif k == "many":
                n = mk_seq(self._seq_kind(),
                           mk_un("many", n, nullable=True, sp=sp), leaf())
            elif k == "sep_by":
                n = mk_seq(self._seq_kind(), leaf(),
                           mk_rep("sep_by", n, leaf(), sp))
            elif k == "bind":
                n = mk_bind(leaf(), [n, short()], sp) if src.chance(50) \
                    else mk_bind(n, [short()], sp)
            elif k == "pre":
                n = mk_seq(self._seq_kind(), leaf(), n, sp)
            elif k == "post":
                n = mk_seq(self._seq_kind(), n, short(), sp)
            elif k == "indented":
                n = self._ws(mk_indented(
                    src.pick((2, 1, 0, 3)), n, sp))
            else:
                n = self._ws(mk_un(k, n, sp=sp))
        return n

    def _seq_kind(self):
        ks = [k for k in ("seq", "seql", "seqr") if k not in self.exclude]
        return self.src.pick(ks or ("seq",))

    def leaf(self, nn, guarded):
        src = self.src
        opts = [(30, "dom")]
        if guarded and self.n_rules:
            opts.append((14, "ref"))
        opts.append((1, "unexpected"))
        if not nn:
            opts += [(2, "pure"), (1, "purefn"), (2, "eof")]
        k = src.weighted(opts)
        if k == "ref":
            i = src.below(self.n_rules)
            if nn and not self.g.rule_nn[i]:
                ok = [j for j in range(self.n_rules) if self.g.rule_nn[j]]
                if not ok:
                    return self.dom.leaf(src, True)
                i = src.pick(ok)
            return N("ref", (i,), not self.g.rule_nn[i], True)
        if k == "dom":
            n = self.dom.leaf(src, nn)
            if n.nullable and nn:
                raise AssertionError(show(n))
            return n
        if k == "unexpected":
            return N("unexpected", (
                some_label(src, ("nothing", "thing", "x, y")),), False)
        if k == "pure":
            return N("pure", (src.pick(("p",) + FALSY),), True)
        if k == "purefn":
            return N("purefn", (src.below(3),), True)
        return N("eof", (), True)

    def _pair(self, nn, guarded, depth):
        src = self.src
        first_nn = src.chance(70) if not nn else src.chance(75)
        a = self.node(nn and first_nn, guarded, depth - 1)
        b = self.node(nn and a.nullable,
                      guarded or not a.nullable, depth - 1)
        return a, b

    def _comp(self, nn, guarded, depth):
        src = self.src
        k = src.weighted(self.ops)
        d = depth - 1
        sp = src.below(3)
        if k in ("seq", "seql", "seqr"):
            a, b = self._pair(nn, guarded, depth)
            return mk_seq(k, a, b, sp)
        if k == "tuple":
            n = src.weighted([(4, 3), (3, 2), (2, 4), (2, 5), (1, 6), (1, 7),
                              (2, 8)])
            at = src.below(n)
            ps = []
            gd = guarded
            nullable = True
            for i in range(n):
                p = self.node(nn and i == at and nullable, gd,
                              min(d, 1) if n > 3 else d)
                ps.append(p)
                nullable = nullable and p.nullable
                gd = gd or not p.nullable
            return mk_tuple(ps, src.chance(40), sp)
        if k == "alt":
            a = self.node(nn, guarded, d)
            b = self.node(nn, guarded, d)
            return mk_alt(a, b, sp)
        if k == "altn":
            n = src.rng_int(3, 12) if src.chance(8) else src.rng_int(3, 6)
            ps = [self.node(nn, guarded, min(d, 1)) for _ in range(n)]
            left = src.chance(70)
            if left:
                r = ps[0]
                for p in ps[1:]:
                    r = mk_alt(r, p, sp)
            else:
                r = ps[-1]
                for p in reversed(ps[:-1]):
                    r = mk_alt(p, r, sp)
            return r
        if k == "maybe":
            if nn:
                a = self.node(False, guarded, d)
                m = mk_un("maybe", a, nullable=True, sp=sp)
                b = self.node(True, guarded, d)
                return mk_seq("seq", m, b)
            return mk_un("maybe", self.node(src.chance(80), guarded, d),
                         nullable=True, sp=sp)
        if k == "many":
            if nn:
                a = self.node(True, guarded, d)
                b = self.node(True, True, d)
                return mk_seq(src.pick(("seq", "seql", "seqr")), a,
                              mk_un("many", b, nullable=True, sp=sp))
            return mk_un("many", self.node(True, guarded, d), nullable=True,
                         sp=sp)
        if k in ("sep_by", "chainl1", "chainr1"):
            if k == "sep_by" and nn:
                o = self.node(True, guarded, 0)
                p, s = self._item_sep(True, d)
                return mk_seq("seqr", o, mk_rep("sep_by", p, s, sp))
            if k == "sep_by":
                p, s = self._item_sep(guarded, d)
            else:
                p, s = self._item_sep(guarded, d, nn)
                if src.chance(20):
                    s = mk_un("fmap", s, (
                        "const", len(FALSY) + src.below(len(QUIRKS))))
                    if src.chance(30):
                        s = mk_alt(s, self.node(
                            s.nullable or src.chance(80),
                            guarded or not p.nullable, 0))
            return mk_rep(k, p, s, sp)
        if k == "between":
            o = self.node(nn or src.chance(80), guarded, 0)
            p = self.node(False, guarded or not o.nullable, d)
            c = self.node(False,
                          guarded or not (o.nullable and p.nullable), 0)
            return mk_between(o, c, p, sp)
        if k in ("attempt", "recover"):
            return mk_un(k, self.node(nn, guarded, d), sp=sp)
        if k == "label":
            return mk_un("label", self.node(nn, guarded, d),
                         some_label(src, (
                             "lbl", "M", "some thing", "'a'", "p, q", "")),
                         sp=sp)
        if k == "fmap":
            return mk_un("fmap", self.node(nn, guarded, d),
                         src.weighted([
                             (5, ("tag", 1)), (3, ("tag", 2)), (2, ("id",)),
                             (2, ("const", 0)), (1, ("const", 1)),
                             (1, ("const", 2)), (1, ("const", 3)),
                             (1, ("list",))]), sp=sp)
        if k == "bind":
            p = self.node(nn, guarded, d)
            n = src.rng_int(1, 3)
            table = [self.node(nn and p.nullable, guarded or not p.nullable,
                               d) for _ in range(n)]
            return mk_bind(p, table, sp)
        if k == "recover_with":
            p = self.node(nn, guarded, d)
            return mk_un("recover_with", p,
                         src.pick(("R",) + FALSY),
                         src.pick((None, "rlab", None, "")), sp=sp)
        if k == "recover_with_fn":
            p = self.node(nn, guarded, d)
            return mk_un("recover_with_fn", p,
                         src.pick(("pos", "str", "none")),
                         src.pick((None, "flab", None, "")), sp=sp)
        if k == "aligned":
            return self._ws(mk_un(
                "aligned", self.node(nn, guarded, d), sp=sp))
        if k == "indented":
            return self._ws(mk_indented(
                src.pick((2, 1, 4, 0, 3, -1, -2)), self.node(nn, guarded, d), sp))
        if k == "block":
            return self._ws(mk_un(
                "block", self.node(nn, guarded, d), sp=sp))
        raise AssertionError(k)

    def _ws(self, n):
        if self.dom.name == "text" and self.src.chance(75):
            return mk_seq("seqr", WS, n)
        return n

    def _item_sep(self, guarded, d, nn=False):
        src = self.src
        p = self.node(nn or src.chance(85), guarded, d)
        s = self.node(p.nullable or src.chance(80),
                      guarded or not p.nullable, min(d, 1))
        return p, s


WS = N("regexp", (r"\s*", 0, ("", " ", "\n")), True)


# ------------------------------------------------------------------ sampler


def sample(g, src, budget=60, big=False):
    """Roughly derive a sentence of g (not guaranteed to be accepted)."""
    out = []
    dom = g.dom
    fuel = [budget]

    def col():
        if dom.name == "seq":
            return 0
        s = "".join(x for x in out)
        return len(s) - (s.rfind("\n") + 1)

    def goto(c):
        """Move to column c on a fresh line (text-like domains)."""
        out.append("\n" + " " * max(0, c))

    def go(n, mark, depth):
        fuel[0] -= 1
        if fuel[0] < -2 * budget:
            return
        k = n.kind
        a = n.args
        low = fuel[0] <= 0 or depth > 14
        if k in ("seq", "seql", "seqr"):
            if a[0] is WS and a[1].kind in LAYOUT_KINDS:
                go(a[1], mark, depth + 1)
                return
            go(a[0], mark, depth + 1)
            go(a[1], mark, depth + 1)
        elif k == "tuple":
            for p in a[0]:
                go(p, mark, depth + 1)
        elif k == "between":
            for p in a:
                go(p, mark, depth + 1)
        elif k == "alt":
            first = _light(a[0]) if low and _light(a[0]) != _light(a[1]) \
                else src.below(2) == 0
            go(a[0] if first else a[1], mark, depth + 1)
        elif k == "maybe":
            if not low and src.below(3):
                go(a[0], mark, depth + 1)
        elif k == "many":
            if not low:
                for _ in range(src.rng_int(0, 40) if big and src.below(2)
                               else src.weighted([
                                   (3, 1), (2, 0), (3, 2), (2, 3), (1, 6)])):
                    go(a[0], mark, depth + 1)
                    if fuel[0] <= 0:
                        break
        elif k in ("sep_by", "chainl1", "chainr1"):
            if k == "sep_by" and (low or src.below(6) == 0):
                return
            go(a[0], mark, depth + 1)
            if not low:
                for _ in range(src.rng_int(0, 30) if big and src.below(2)
                               else src.weighted([
                                   (3, 1), (3, 0), (3, 2), (1, 4)])):
                    go(a[1], mark, depth + 1)
                    go(a[0], mark, depth + 1)
                    if fuel[0] <= 0:
                        break
        elif k == "bind":
            go(a[0], mark, depth + 1)
            go(src.pick(a[1]), mark, depth + 1)
        elif k == "ref":
            if depth <= 40:
                go(g.rules[a[0]], mark, depth + 1)
        elif k == "aligned":
            if dom.name != "seq" and (col() != mark or src.below(3) == 0):
                goto(mark)
            go(a[0], mark, depth + 1)
        elif k == "block":
            if dom.name != "seq" and src.below(2):
                goto(src.below(5))
            go(a[0], col(), depth + 1)
        elif k == "indented":
            if dom.name != "seq":
                goto(mark + a[0])
            go(a[1], mark + a[0], depth + 1)
        elif k in ("pure", "purefn", "eof", "unexpected"):
            pass
        elif a and isinstance(a[0], N):
            go(a[0], mark, depth + 1)
        else:
            dom.sample_leaf(n, src, out, mark)

    go(g.start, 0, 0)
    return dom.finish(out)


def _light(n):
    return n.kind in ("sym", "literal", "regexp", "satisfy", "token",
                      "token_ins", "symtok", "letter", "digit", "pure",
                      "purefn", "eof")


def gen_input(g, src):
    """An input for g: sampled, sampled+mutated, random or empty."""
    k = src.weighted([(8, "mut"), (5, "sample"), (2, "random"), (1, "empty")])
    if k == "empty":
        return g.dom.finish([])
    if k == "random":
        return g.dom.random_input(src)
    big = src.chance(5)
    s = sample(g, src, 400, True) if big else sample(g, src)
    if k == "mut":
        s = g.dom.mutate(src, s)
    return s


# ------------------------------------------------------------------ realise


class Realised:
    __slots__ = ("start", "rules", "node", "memo")


def builder(g, spelling=None, hook=None, wrap=None, refs=None,
            override=None):
    """
    Builds the reparsec parsers of the nodes of a grammar (references still
    undefined).  `spelling` (0-2) overrides the choice between the equivalent
    operator / method / function spellings recorded in the nodes.  `hook` is called with the name
    of the callback whenever the parser calls a user function.  `wrap`
    replaces the parser made for a node.  `refs` are the parsers to use for
    references.  `override` maps kinds to functions (node, go) -> parser.
    """
    import reparsec as R
    from reparsec import layout as LY
    from reparsec import lexer as LX
    from reparsec import primitive as PR
    from reparsec import scannerless as SL
    from reparsec import sequence as SQ

    delays = refs if refs is not None else [R.Delay() for _ in g.rules]
    memo = {}

    def hk(name, f):
        if hook is None:
            return f

        def hooked(*args):
            hook(name)
            return f(*args)
        return hooked

    def go(n):
        r = memo.get(id(n))
        if r is None:
            if override is not None and n.kind in override:
                r = override[n.kind](n, go)
            else:
                r = go_(n)
            if wrap is not None:
                r = wrap(n, r)
            memo[id(n)] = r
        return r

    def go_(n):
        k = n.kind
        a = n.args
        sp = n.sp if spelling is None else spelling
        if k == "sym":
            if a[1] is None:
                return SQ.sym(a[0])
            return SQ.sym(a[0], a[1]) if sp else SQ.sym(a[0], label=a[1])
        if k == "satisfy":
            if a[0][0] == "val" and not isinstance(a[0], str):
                v = a[0][1]
                return SQ.satisfy(hk("satisfy", lambda t: t.value == v))
            return SQ.satisfy(hk("satisfy", pred_fn(a[0])))
        if k == "letter":
            return SQ.letter
        if k == "digit":
            return SQ.digit
        if k == "eof":
            return SQ.eof()
        if k == "literal":
            return SL.literal(a[0])
        if k == "regexp":
            if a[1] == 0 and sp:
                return SL.regexp(a[0])
            return SL.regexp(a[0], a[1])
        if k == "token":
            return LX.token(a[0])
        if k == "token_ins":
            return LX.token_ins(a[0], a[1])
        if k == "symtok":
            if a[2] is None:
                return SQ.sym(LX.Token(a[0], a[1]))
            return SQ.sym(LX.Token(a[0], a[1]), a[2])
        if k == "pure":
            return PR.Pure(a[0])
        if k == "purefn":
            return PR.PureFn(hk("purefn", lambda: ["pf", a[0]]))
        if k == "unexpected":
            return PR.unexpected(a[0])
        if k == "ref":
            return delays[a[0]]
        if k == "seq":
            x, y = go(a[0]), go(a[1])
            return (x + y, R.seq(x, y), x.then(y)
                    if isinstance(x, R.TupleParser) else x + y)[sp]
        if k == "seql":
            x, y = go(a[0]), go(a[1])
            return x << y if sp == 0 else R.seql(x, y) if sp == 1 \
                else x.seql(y)
        if k == "seqr":
            x, y = go(a[0]), go(a[1])
            return x >> y if sp == 0 else R.seqr(x, y) if sp == 1 \
                else x.seqr(y)
        if k == "tuple":
            ps = [go(p) for p in a[0]]
            r = ps[0]
            if not isinstance(r, R.TupleParser):
                # then() of a tuple parser extends the tuple: keep it nested
                r = r.fmap(lambda v: v)
            for p in ps[1:]:
                r = r.then(p)
            if a[1]:
                r = r.apply(hk("apply", lambda *xs: ("ap",) + xs))
            return r
        if k == "alt":
            x, y = go(a[0]), go(a[1])
            return R.alt(x, y) if sp == 1 else x | y
        if k == "maybe":
            x = go(a[0])
            return R.maybe(x) if sp == 1 else x.maybe()
        if k == "many":
            x = go(a[0])
            return R.many(x) if sp == 1 else x.many()
        if k == "attempt":
            x = go(a[0])
            return R.attempt(x) if sp == 1 else x.attempt()
        if k == "recover":
            x = go(a[0])
            return R.recover(x) if sp == 1 else x.recover()
        if k == "label":
            x = go(a[0])
            return R.label(x, a[1]) if sp == 1 else x.label(a[1])
        if k == "fmap":
            x = go(a[0])
            f = hk("fmap", fmap_fn(a[1]))
            return R.fmap(x, f) if sp == 1 else x.fmap(f)
        if k == "bind":
            x = go(a[0])
            tbl = [go(t) for t in a[1]]

            def fn(v, tbl=tbl):
                return tbl[bind_key(canon(v), len(tbl))]
            fn = hk("bind", fn)
            return R.bind(x, fn) if sp == 1 else x.bind(fn)
        if k == "recover_with":
            x = go(a[0])
            if a[2] is None:
                return R.recover_with(x, a[1]) if sp == 1 \
                    else x.recover_with(a[1])
            return R.recover_with(x, a[1], a[2]) if sp == 1 \
                else x.recover_with(a[1], label=a[2])
        if k == "recover_with_fn":
            x = go(a[0])

            def rf(s, p, kind=a[1]):
                return rwf_value(kind, len(s), p)
            rf = hk("recover_with_fn", rf)
            if a[2] is None:
                return R.recover_with_fn(x, rf) if sp == 1 \
                    else x.recover_with_fn(rf)
            return R.recover_with_fn(x, rf, a[2]) if sp == 1 \
                else x.recover_with_fn(rf, label=a[2])
        if k == "sep_by":
            x, s = go(a[0]), go(a[1])
            return R.sep_by(x, s) if sp == 1 else x.sep_by(s)
        if k == "between":
            o, x, c = go(a[0]), go(a[1]), go(a[2])
            return R.between(o, c, x) if sp == 1 else x.between(o, c)
        if k in ("chainl1", "chainr1"):
            x = go(a[0])
            o = go(a[1]).fmap(hk("op", lambda v: Op(v, hook)))
            if sp == 1:
                return getattr(R, k)(x, o)
            return getattr(x, k)(o)
        if k == "aligned":
            return LY.aligned(go(a[0]))
        if k == "block":
            return LY.block(go(a[0]))
        if k == "indented":
            return LY.indented(a[0], go(a[1]))
        raise AssertionError(k)

    r = Realised()
    r.start = None
    r.rules = delays
    r.node = go
    r.memo = memo
    return r


def build(g, spelling=None, hook=None, wrap=None, override=None):
    """Builds the parser of a grammar."""
    r = builder(g, spelling, hook, wrap, None, override)
    # Delays may be defined before or after being used
    order = list(range(len(g.rules)))
    early = [i for i in order if i % 2 == 0]
    late = [i for i in order if i % 2 == 1]
    for i in early:
        r.rules[i].define(r.node(g.rules[i]))
    r.start = r.node(g.start)
    for i in late:
        r.rules[i].define(r.node(g.rules[i]))
    return r
