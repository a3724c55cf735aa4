"""C02: a failed plain parse reports the right location and expectations."""
from .. import enum
from ..common import (
    Case, case_inputs, gen_grammar, inner_eof, model_plain, no_exc, run_real
)
from ..deep import deep_case
from ..engine import Discard
from ..grammar import Gen, N, SeqDom, build, gen_input, walk
from ..long import long_case
from ..pump import plain_error, pump_part
from ..real import Mode, expected_errors, unwrap
from ..wide import wide_part

RULE = (
    "a case is a random or enumerated grammar and an input it rejects; the "
    "single error item (location, rendered location, expected list in order, "
    "no operation) is compared with the reference interpreter, and, in the "
    "'continuations' part, with what a one-symbol continuation of the input "
    "does; non-trivial: rejected at a position > 0 or with two or more "
    "expected entries"
    "; also long flat inputs and inputs nested up to 260 levels"
    "; also wide grammars: up to 60 alternatives, optional parts, parts in "
    "a row, or combinators on top of each other"
)


def check(case, rec):
    want = model_plain(case)
    if want[0] != "err":
        rec.label("not rejected")
        return
    res, exc = run_real(case, False)
    no_exc(case, exc, False)
    out = unwrap(res)
    exp = expected_errors(case.mode, want[2])
    if out[0] != "err":
        case.fail("rejected input did not raise ParseError", got=repr(out))
    if out[1] != exp:
        case.fail("wrong error report", got=repr(out[1]), want=repr(exp))
    n = len(exp[0][2])
    rec.label("expected %s" % (n if n < 5 else "5+"))
    rec.case(case.key(), want[2][0][0] > 0 or n > 1,
             lambda: case.desc(error=out[2]))


BOOST = {"label": 2, "maybe": 2, "many": 2, "altn": 3, "attempt": 2,
         "sep_by": 2}


def random_part(dom):
    def part(src, rec):
        g = gen_grammar(src, dom, boost=BOOST, eof=None)
        for c in case_inputs(src, g, 5):
            check(c, rec)
    return part


class SymDom(SeqDom):
    """Unlabelled single characters only."""

    def __init__(self, src):
        super().__init__(src)
        self.alpha = src.pick((tuple("abc"), tuple("ab"), tuple("abcdef")))
        self.chars = True
        self.junk = "~"

    def leaf(self, src, nn):
        return N("sym", (src.pick(self.alpha), None), False)


def continuation_part(src, rec):
    """
    Over single symbols and without labels and attempt: replacing the input
    from the error position on by symbol s gets past that position exactly
    when s is listed as expected.
    """
    dom = SymDom(src)
    gen = Gen(src, dom, exclude=(
        "attempt", "label", "recover", "recover_with", "recover_with_fn"))
    g = gen.grammar()
    if inner_eof(g):
        return      # an inner eof constrains the input before the error
    parser = build(g).start
    for _ in range(3):
        x = gen_input(g, src)
        c = Case(g, parser)
        c.mode = Mode("plain", x)
        # the reference run only bounds the size
        w = model_plain(c)
        res, exc = run_real(c, False)
        if w[0] == "ill":
            continue
        no_exc(c, exc, False)
        out = unwrap(res)
        if out[0] != "err":
            continue
        if len(out[1]) != 1:
            c.fail("more than one error without recovery", got=repr(out[1]))
        p = out[1][0][0][0]
        listed = out[1][0][2]
        if not 0 <= p <= len(x):
            c.fail("error outside of the input", got=repr(out[1]))
        known = {repr(s) for s in dom.alpha} | {"end of file"}
        known.update(n.args[0] for n in walk(g) if n.kind == "unexpected")
        for e in listed:
            if e not in known:
                c.fail("expected entry from nowhere", got=repr(out[1]))
        for s in dom.alpha:
            y = x[:p] + [s]
            d = Case(g, parser)
            d.mode = Mode("plain", y)
            res2, exc2 = run_real(d, False)
            if exc2 is not None:
                raise Discard("empty repetition")
            out2 = unwrap(res2)
            past = out2[0] == "ok" or out2[1][0][0][0] > p
            if past != (repr(s) in listed):
                c.fail("symbol %r at the error position %s, but is %slisted "
                       "as expected" % (
                           s, "is accepted" if past else "is rejected",
                           "" if repr(s) in listed else "not "),
                       got=repr(out[1]), continuation=repr(y),
                       outcome=repr(out2))
        rec.label("continuations")
        rec.case(c.key(), p > 0 or len(listed) > 1,
                 lambda: c.desc(error=out[2]))


def enum_part(max_size, max_len):
    inputs = enum.inputs(max_len)
    gs = enum.grammars(max_size)

    def part(src, rec):
        t, eof = gs[src.below(len(gs))]
        g = enum.to_g(t, eof)
        parser = build(g).start
        for s in inputs:
            c = Case(g, parser)
            c.mode = Mode("plain", s)
            check(c, rec)
    return ("exhaustive size<=%d len<=%d" % (max_size, max_len), part,
            len(gs), lambda i: [i])


def long_part(src, rec):
    c = long_case(src, rec, errors=src.pick((1, 1, 2, 0)))
    if c is not None:
        check(c, rec)


def deep_part(src, rec):
    c = deep_case(src, rec)
    if c is not None:
        check(c, rec)


def parts(tier):
    k = 6 if tier == "quick" else 80
    return [
        ("sequences", random_part("seq"), 9000 * k),
        ("text", random_part("text"), 7000 * k),
        ("tokens", random_part("tok"), 5000 * k),
        ("wide", wide_part(check), 900 * k),
        ("long", long_part, 400 * k),
        ("deep", deep_part, 300 * k),
        ("pumped", pump_part(plain_error, lambda src: src.pick((1, 1, 2)),
                             False), 25 * k),
        ("continuations", continuation_part, 6000 * k),
        enum_part(4, 3) if tier == "quick" else enum_part(5, 4),
    ]
