"""Case generation and comparisons shared by the properties."""
from .engine import Discard, Violation
from .grammar import (
    Gen, SeqDom, TextDom, TokDom, build, gen_input, kinds, show, walk
)
from . import model as M
from .real import (
    LX, Mode, expected_errors, interp, real_parse, stream_repr, unwrap
)

DOMS = {"seq": SeqDom, "text": TextDom, "tok": TokDom}


class Case:
    """A grammar, its parser, and an input."""

    def __init__(self, g, parser):
        self.g = g
        self.parser = parser
        self.mode = None
        self.fuel = None
        self.max_depth = None

    def desc(self, **kw):
        d = {"grammar": self.g.show(), "mode": self.mode.name,
             "input": stream_repr(self.mode.stream)}
        if self.mode.name == "lex":
            d["source"] = self.mode.src
            d["spec"] = self.g.dom.re.pattern
        if self.mode.max_ins != 5:
            d["max_insertions"] = self.mode.max_ins
        d.update(kw)
        return d

    def key(self):
        return "%s|%s|%s|%s" % (
            self.g.show(), stream_repr(self.mode.stream), self.mode.name,
            self.mode.max_ins)

    def fail(self, msg, **kw):
        raise Violation(msg, self.desc(**kw))


def gen_grammar(src, dom=None, layout=None, **kw):
    dk = dom or src.weighted([(4, "seq"), (4, "text"), (3, "tok")])
    d = DOMS[dk](src)
    if layout is None:
        layout = dk != "seq" and src.chance(30)
    eof = kw.pop("eof", None)
    g = Gen(src, d, layout=layout, **kw).grammar(eof)
    return g


MAX_INS = ((10, 5), (3, 1), (3, 0), (3, 2), (2, 3), (1, 4), (1, 6), (1, 7),
           (1, 12), (1, 25))


def gen_mode(src, g, max_ins=None, inp=None):
    """An input for g and a way to parse it."""
    name = g.dom.name
    if inp is None:
        inp = gen_input(g, src)
    if name == "seq":
        if g.dom.chars and src.chance(20):
            inp = "".join(inp)
        mi = src.weighted(MAX_INS) if max_ins is None else max_ins
        return Mode("plain", inp, mi)
    if name == "text":
        k = src.weighted([(6, "sl"), (3, "slm"), (1, "plain")])
        if max_ins is not None and max_ins != 5 and k == "sl":
            k = "slm"
        mi = 5
        if k != "sl":
            mi = src.weighted(MAX_INS) if max_ins is None else max_ins
        return Mode(k, inp, mi)
    try:
        toks = LX.split_tokens(inp, g.dom.re)
    except LX.LexError:
        raise Discard("source does not tokenize")
    if max_ins is not None and max_ins != 5:
        return Mode("lexm", toks, max_ins, src=inp)
    return Mode("lex", toks, src=inp)


def case_interp(case, fuel):
    it = interp(case.g, case.mode, case.fuel or fuel)
    if case.max_depth:
        it.max_depth = case.max_depth
    return it


def model_plain(case, fuel=20000):
    it = case_interp(case, fuel)
    try:
        return M.plain(it)
    except M.Ill:
        return ("ill",)
    except M.OutOfFuel:
        raise Discard("reference run too big")


def model_recover(case, fuel=20000):
    it = case_interp(case, fuel)
    try:
        return M.recovering(it, case.mode.max_ins)
    except M.Ill:
        return ("ill",)
    except M.OutOfFuel:
        raise Discard("reference run too big")


def model_candidates(case, fuel=20000):
    it = case_interp(case, fuel)
    try:
        return M.candidates(it, case.mode.max_ins)
    except (M.Ill, M.OutOfFuel):
        raise Discard("reference run too big")


def case_inputs(src, g, n, max_ins=None):
    """Yields Case objects for n inputs (untokenizable sources skipped)."""
    parser = build(g).start
    for _ in range(n):
        c = Case(g, parser)
        try:
            c.mode = gen_mode(src, g, max_ins)
        except Discard:
            continue
        yield c


def run_real(case, recover):
    res, exc = real_parse(case.parser, case.mode, recover)
    return res, exc


def check_ill(case, exc):
    """A repetition over an empty match must raise RuntimeError."""
    if exc is None:
        case.fail("repetition over a parser that accepts empty input "
                  "did not raise")
    if exc[0] != "RuntimeError":
        case.fail("repetition over a parser that accepts empty input raised "
                  "%s: %s" % exc)


def no_exc(case, exc, recover):
    if exc is not None:
        case.fail("parse(recover=%s) raised %s: %s" % (
            recover, exc[0], exc[1]))


def cmp_value(case, got, want, what):
    if got != want:
        case.fail("wrong " + what, got=repr(got), want=repr(want))


def errs_of(case, out):
    """Error tuples of an unwrap() outcome, which must be a ParseError."""
    if out[0] != "err":
        case.fail("expected a ParseError", got=repr(out)[:500])
    return out[1]


NONTRIV = frozenset((
    "alt", "maybe", "many", "sep_by", "chainl1", "chainr1", "ref", "bind",
    "attempt", "tuple",
))


def interesting(g):
    """Has a choice, a repetition or recursion, and at least two terminals."""
    ks = kinds(g)
    return bool(ks & NONTRIV)


def inner_eof(g):
    """Does eof occur anywhere but at the very end of the grammar?"""
    last = g.start.args[1] if g.start.kind == "seql" else None
    return any(n.kind == "eof" and n is not last for n in walk(g))
