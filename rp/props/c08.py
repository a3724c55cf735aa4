"""C08: reported line, column and position match the text."""
import re

from ..common import (
    Case, case_inputs, errs_of, gen_grammar, model_plain, model_recover,
    no_exc, run_real
)
from ..engine import Discard, Violation
from ..grammar import ODD_CHARS, build, gen_input
from ..real import (
    LX, SL, Loc, Mode, expected_errors, op_tuple, text_loc, unwrap
)
from ..pump import both_reports, pump_part
from .c09 import spec_for

RULE = (
    "'text'/'tokens': random grammars and texts rich in newlines, reported "
    "locations compared with offsets and line/column counted from the text; "
    "'get_loc': the same through an instrumented user location function "
    "(call discipline checked); 'own tokens': tokens made by hand with no, "
    "gapped or unordered locations; 'documents': long multi-line documents with "
    "junk and omissions at known places, through regexps, single characters "
    "and the lexer; 'token locations': every token and inserted token; "
    "non-trivial: a reported location after the first line or past an "
    "earlier repair, or a token after a newline"
)


def locs(errs):
    return [(e[0], e[1]) for e in errs]


def check(c, rec, recover):
    want = model_recover(c) if recover else model_plain(c)
    if want[0] == "ill":
        return
    res, exc = run_real(c, recover)
    no_exc(c, exc, recover)
    out = unwrap(res)
    if want[0] == "ok":
        if out[0] != "ok":
            c.fail("valid input rejected", got=repr(out))
        return
    errs = errs_of(c, out)
    exp = expected_errors(c.mode, want[2])
    if locs(errs) != locs(exp):
        c.fail("wrong location", got=repr(locs(errs)), want=repr(locs(exp)),
               recover=recover)
    last = errs[-1][0]
    rec.label("line %d" % min(last[1], 5))
    rec.case("%s|%s" % (recover, c.key()), last[1] > 0 or len(errs) > 1,
             lambda: c.desc(report=out[2]))


def text_part(dom):
    def part(src, rec):
        g = gen_grammar(src, dom)
        for c in case_inputs(src, g, 4):
            check(c, rec, False)
            check(c, rec, True)
            if dom == "tok":
                check_inserted(c, rec)
    return part


def check_inserted(c, rec):
    """Tokens in values carry the location where they stand."""
    res, exc = run_real(c, True)
    if exc is not None:
        return
    out = unwrap(res, True)
    if out[0] != "ok":
        return
    own = {(t.kind, t.value, tuple(t.start), tuple(t.end))
           for t in c.mode.stream}
    n = len(c.mode.stream)
    marks = {c.mode.loc(i) for i in range(n + 1)}

    def go(v):
        if isinstance(v, tuple):
            if len(v) == 5 and v[0] == "Tok":
                if v[1:] not in own and not (
                        v[3] == v[4] and (v[3] in marks)) and \
                        v[3] != (0, 0, 0):
                    c.fail("token with a location from nowhere", got=repr(v))
            else:
                for x in v:
                    go(x)
    go(out[1])


# ---------------------------------------------------------------- get_loc


class Tracked(Mode):
    """A user location function that watches how it is called."""

    def __init__(self, base, style, max_ins):
        self.name = "custom"
        self.stream = base.stream
        self.src = base.src
        self.max_ins = max_ins
        self.style = style
        n = len(base.stream)
        if style == "offset":
            # location positions are not stream positions
            self.loc = lambda p: (3 * p + (p > 0), p // 3, (2 * p) % 7)
        elif style == "base":
            self.loc = base.loc
        else:
            cols = [0]
            for i in range(n):
                cols.append((cols[-1] + 1) % 4)
            self.loc = lambda p: (p, p // 4, cols[p])
        self.bad = None

    def fmt(self, loc):
        return "%d|%d|%d" % tuple(loc)

    def parse(self, parser, recover):
        made = {(0, 0, 0): 0}
        stream = self.stream

        def get_loc(prev, s, pos):
            if s is not stream:
                self.bad = "get_loc called with another stream"
            elif tuple(prev) not in made:
                self.bad = "get_loc called with a location it never made: " \
                    "%r" % (prev,)
            elif pos < made[tuple(prev)]:
                self.bad = "get_loc asked to go back from position %d to %d" \
                    % (made[tuple(prev)], pos)
            elif not 0 <= pos <= len(stream):
                self.bad = "get_loc asked for position %d of %d" % (
                    pos, len(stream))
            r = Loc(*self.loc(pos))
            made.setdefault(tuple(r), pos)
            return r

        def fmt_loc(loc):
            if tuple(loc) not in made:
                self.bad = "fmt_loc called with a location get_loc never " \
                    "made: %r" % (loc,)
            return self.fmt(loc)

        return parser.parse(stream, recover, max_insertions=self.max_ins,
                            get_loc=get_loc, fmt_loc=fmt_loc)


def get_loc_part(src, rec):
    g = gen_grammar(src, None, layout=None if src.below(2) else True)
    style = src.pick(("base", "offset", "grid"))
    for c in case_inputs(src, g, 4):
        c.mode = Tracked(c.mode, style, src.pick((5, 5, 2, 0)))
        for recover in (False, True):
            c.mode.bad = None
            try:
                check(c, rec, recover)
            finally:
                if c.mode.bad:
                    c.fail(c.mode.bad, recover=recover)


# -------------------------------------------------- tokens made by hand


def own_tokens(src, toks):
    """The same tokens with locations of their own."""
    how = src.pick(("none", "mixed", "back", "gaps"))
    out = []
    p = 0
    for i, t in enumerate(toks):
        if how == "none" or how == "mixed" and src.below(2):
            out.append(LX.Token(t.kind, t.value))
            continue
        if how == "back":
            a = Loc(src.below(50), src.below(4), src.below(6))
            b = Loc(src.below(50), src.below(4), src.below(6))
        else:
            p += src.below(5)
            a = Loc(p, p // 7, p % 7)
            p += src.below(4)
            b = Loc(p, p // 7, p % 7)
        out.append(LX.Token(t.kind, t.value, a, b))
    return out


def own_part(src, rec):
    g = gen_grammar(src, "tok", layout=src.chance(40))
    for c in case_inputs(src, g, 4):
        own = own_tokens(src, c.mode.stream)
        c.mode = Mode(c.mode.name, own, c.mode.max_ins, c.mode.src)
        for recover in (False, True):
            check(c, rec, recover)
            own_values(c, recover)
        if own and src.chance(30):
            # a stream that is not a list
            c.mode = Mode("lex", tuple(own), 5, c.mode.src)
            check(c, rec, True)


def own_values(c, recover):
    want = model_recover(c) if recover else model_plain(c)
    if want[0] not in ("ok", "rec"):
        return
    res, exc = run_real(c, recover)
    no_exc(c, exc, recover)
    out = unwrap(res, recover)
    if out[0] == "ok" and out[1] != want[1]:
        c.fail("wrong value or token location", recover=recover,
               got=repr(out[1]), want=repr(want[1]))


# -------------------------------------------------------------- documents

WORDS = ("w", "ab", "xyz", "longerword", "é", "мир")
GAPS = (" ", "\n", "\n\n  ", "\t", "  ", "\r\n", "\n ", " \n", "\n\n\n",
        " " * 40)
LEX = re.compile(r"(?P<w>[^\W\d_]+)|(?P<l>\()|(?P<r>\))|(?P<bad>\S)|\s+")


def doc_parsers():
    import reparsec as R
    from reparsec import sequence as SQ
    ws = SL.regexp(r"\s*")
    eof = SQ.eof()
    a = ws >> ((SL.literal("(") << ws) >> SL.regexp(r"[^\W\d_]+").label("w")
               << ws << SL.literal(")") << ws).many() << eof
    sp = SQ.satisfy(str.isspace).many()
    b = sp >> ((SQ.sym("(") << sp) >> SQ.satisfy(
        str.isalpha).label("w") << SQ.satisfy(
        str.isalpha).many() << sp << SQ.sym(")") << sp).many() << eof
    d = (SQ.sym(LX.Token("l", "("), "'('") >> LX.token("w")
         << SQ.sym(LX.Token("r", ")"), "')'")).many() << eof
    return {"regexp": a, "chars": b, "lexer": d}


_DOCS = None


def documents_part(src, rec):
    global _DOCS
    if _DOCS is None:
        _DOCS = doc_parsers()
    n = src.size(12, 120, 10) + 1
    n_err = src.rng_int(1, 4)
    at = sorted({src.below(n) for _ in range(n_err)})
    out = []
    want = []
    size = 0

    def put(s):
        nonlocal size
        out.append(s)
        size += len(s)

    kind = src.pick(("regexp", "chars", "lexer"))
    huge = src.chance(4)
    for i in range(n):
        put("(")
        if src.below(3) == 0:
            put(src.pick(GAPS))
        if huge and src.below(8) == 0:
            put(src.pick((" ", "\n", " \n")) * src.rng_int(300, 3000))
        put(src.pick(WORDS))
        g = src.pick(GAPS) if src.below(3) == 0 else ""
        if i in at and src.below(4) == 0 and i + 1 < n:
            # the next item's '(' stands where ')' is expected
            put(src.pick(GAPS))
            want.append((size, ("ins", "')'")))
            continue
        put(g)
        if i in at:
            k = src.weighted([(6, 1), (3, 2), (1, 9)])
            want.append((size, ("skip", k)))
            put("!" * k)
        put(")")
        if src.below(2):
            put(src.pick(GAPS))
    text = "".join(out)
    if not want:
        return
    parser = _DOCS[kind]
    desc = {"document": text, "parser": kind}

    def fail(msg, **kw):
        raise Violation(msg, dict(desc, **kw))

    from reparsec import ParseError
    for recover in (False, True):
        if kind == "lexer":
            toks = LX.split_tokens(text, LEX)
            res = LX.parse(parser, toks, recover)
        else:
            res = SL.parse(parser, text, recover)
        try:
            res.unwrap()
        except ParseError as e:
            errs = e.errors
        else:
            fail("junk not noticed")
        exp = want if recover else [(want[0][0], None)]
        got = [(tuple(e.loc), e.loc_str, op_tuple(e.op)) for e in errs]
        exp = [(text_loc(text, p),
                "%d:%d" % (text_loc(text, p)[1] + 1,
                           text_loc(text, p)[2] + 1), o) for p, o in exp]
        if got != exp:
            fail("wrong locations", got=repr(got), want=repr(exp),
                 recover=recover)
    rec.label("document, %s, %d errors" % (kind, len(want)))
    rec.case(kind + "|" + text, exp[-1][0][1] > 0 or len(want) > 1,
             lambda: dict(desc, errors=repr(got)))


# ------------------------------------------------------- token locations


def token_part(src, rec):
    from ..grammar import TokDom
    n = src.size(12, 150, 10)
    if src.chance(50):
        spec, some = spec_for(src)
    else:
        spec = TokDom(src).re
        some = (
            " ", "\n", "\t", "a", "1", "(", ")", ",", "if", "==", "+", "x1",
            '"q"', "\n\n", "  ", "# c", "// d", "-2.5", "\r\n", "\f", "\v",
            "\x85", "\u2028", "'a\nb'", "'\n'", "2\n", "3;", "/* \n */",
            "IF")
    text = "".join(
        src.pick(ODD_CHARS) if src.chance(2) else src.pick(some)
        for _ in range(n))
    try:
        toks = LX.split_tokens(text, spec)
    except LX.LexError as e:
        loc = tuple(e.loc)
        if not 0 <= loc[0] < len(text) or loc != text_loc(text, loc[0]):
            raise Violation("LexError at a wrong location", {
                "source": text, "spec": spec.pattern, "got": repr(loc)})
        return
    last = 0
    for t in toks:
        s, e = tuple(t.start), tuple(t.end)
        bad = None
        if not (type(s[0]) is int and last <= s[0] < e[0] <= len(text)):
            bad = "token spans out of order"
        elif s != text_loc(text, s[0]) or e != text_loc(text, e[0]):
            bad = "wrong token location"
        elif t.value not in text[s[0]:e[0]]:
            bad = "token value is not at its location"
        if bad:
            raise Violation(bad, {"source": text, "spec": spec.pattern,
                                  "token": repr((t, s, e))})
        last = e[0]
    rec.label("tokenized")
    rec.case("t|" + text, bool(toks) and toks[-1].start[1] > 0,
             lambda: {"source": text, "tokens": len(toks)})


def parts(tier):
    k = 4 if tier == "quick" else 50
    return [
        ("text", text_part("text"), 8000 * k),
        ("tokens", text_part("tok"), 5000 * k),
        ("get_loc", get_loc_part, 6000 * k),
        ("own tokens", own_part, 2500 * k),
        ("pumped", pump_part(
            both_reports, lambda src: src.pick((1, 1, 2))), 25 * k),
        ("documents", documents_part, 4000 * k),
        ("token locations", token_part, 4000 * k),
    ]
