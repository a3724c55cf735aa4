"""C01: plain parsing accepts exactly the specified inputs and values."""
from .. import enum
from ..common import (
    Case, case_inputs, check_ill, cmp_value, gen_grammar, interesting,
    model_plain, no_exc, run_real
)
from ..deep import deep_case
from ..grammar import Gen, N, SeqDom, TextDom, TokDom, build, mk_seq
from ..long import long_case
from ..pump import plain_value, pump_part
from ..real import Mode, unwrap
from ..wide import wide_part

RULE = (
    "a case is a random (or, in the exhaustive part, an enumerated) grammar "
    "and one input, parsed without recovery and by the reference interpreter "
    "(accept/reject, value, RuntimeError on empty repetition compared); "
    "non-trivial: the grammar has a choice, repetition or recursion and the "
    "input is accepted, or rejected after consuming input"
    "; also long flat inputs (up to thousands of elements) and inputs "
    "nested up to 260 levels"
    "; also wide grammars: up to 60 alternatives, optional parts, parts in "
    "a row, or combinators on top of each other"
)


def check(case, rec):
    want = model_plain(case)
    res, exc = run_real(case, False)
    rec.label("plain " + want[0])
    if want[0] == "ill":
        check_ill(case, exc)
        rec.case(case.key(), True, case.desc)
        return
    no_exc(case, exc, False)
    out = unwrap(res)
    if want[0] == "ok":
        cmp_value(case, out, ("ok", want[1]), "result of a plain parse")
        nt = interesting(case.g) and want[2] > 0
    else:
        if out[0] != "err":
            case.fail("invalid input was not rejected with ParseError",
                      got=repr(out))
        nt = interesting(case.g) and want[2][0][0] > 0
    rec.case(case.key(), nt, lambda: case.desc(outcome=want[0]))


def random_part(dom):
    def part(src, rec):
        g = gen_grammar(src, dom, layout=False)
        for c in case_inputs(src, g, 4):
            check(c, rec)
    return part


def ill_part(src, rec):
    """Repetitions whose body may match nothing."""
    dom = (SeqDom, TextDom, TokDom)[src.below(3)](src)
    gen = Gen(src, dom, max_depth=2)
    g = gen.grammar(eof=False)
    p = gen.node(False, False, 2)
    k = src.below(5)
    if k == 0:
        n = N("many", (p,), True)
    else:
        s = gen.node(False, False, 1)
        n = N(("sep_by", "sep_by", "chainl1", "chainr1")[k - 1], (p, s), True)
    if p.needs_guard or n.args[-1].needs_guard:
        return
    g.start = n if src.below(2) else mk_seq("seq", gen.node(
        False, False, 1), n)
    if g.start.needs_guard:
        return
    for c in case_inputs(src, g, 3):
        check(c, rec)


def enum_part(max_size, max_len):
    inputs = enum.inputs(max_len)
    gs = enum.grammars(max_size)

    def part(src, rec):
        t, eof = gs[src.below(len(gs))]
        g = enum.to_g(t, eof)
        parser = build(g).start
        for s in inputs:
            c = Case(g, parser)
            c.mode = Mode("plain", s)
            check(c, rec)
    return ("exhaustive size<=%d len<=%d" % (max_size, max_len), part,
            len(gs), lambda i: [i])


def long_part(src, rec):
    c = long_case(src, rec)
    if c is not None:
        check(c, rec)


def deep_part(src, rec):
    c = deep_case(src, rec)
    if c is not None:
        check(c, rec)


def parts(tier):
    k = 6 if tier == "quick" else 80
    return [
        ("sequences", random_part("seq"), 9000 * k),
        ("text", random_part("text"), 7000 * k),
        ("tokens", random_part("tok"), 5000 * k),
        ("wide", wide_part(check), 900 * k),
        ("long", long_part, 400 * k),
        ("deep", deep_part, 300 * k),
        ("pumped", pump_part(
            plain_value, lambda src: src.weighted([(5, 0), (1, 1)]), False),
         25 * k),
        ("empty repetition", ill_part, 3000 * k),
        enum_part(4, 3) if tier == "quick" else enum_part(5, 4),
    ]
