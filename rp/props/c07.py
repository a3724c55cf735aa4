"""C07: recovery picks the specified repair."""
from .. import enum
from ..common import (
    Case, case_inputs, check_ill, gen_grammar, model_recover, no_exc, run_real
)
from ..deep import deep_case
from ..grammar import build
from ..long import long_case
from ..pump import pump_part, same_repair
from ..real import Mode, expected_errors, unwrap
from ..wide import wide_part

RULE = (
    "a case is a random or enumerated grammar (layout included) and an input "
    "parsed with recovery; value, operations, locations and expected lists "
    "are compared with the reference recovery interpreter; non-trivial: the "
    "input was repaired"
    "; also long flat inputs with many errors and inputs nested up to "
    "260 levels"
    "; also wide grammars: up to 60 alternatives, optional parts, parts in "
    "a row, or combinators on top of each other"
)


def check(c, rec):
    want = model_recover(c)
    res, exc = run_real(c, True)
    if want[0] == "ill":
        check_ill(c, exc)
        return
    no_exc(c, exc, True)
    out = unwrap(res)
    fixed = unwrap(res, True)
    rec.label("recovering " + want[0])
    if want[0] == "ok":
        if out != ("ok", want[1]) or fixed != out:
            c.fail("wrong result of a recovering parse of valid input",
                   got=repr(out), want=repr(want[:2]))
    else:
        exp = expected_errors(c.mode, want[2])
        if out[0] != "err" or out[1] != exp:
            c.fail("wrong repair report", got=repr(out[1:2]), want=repr(exp))
        if want[0] == "err":
            if fixed != out:
                c.fail("repaired although no repair exists", got=repr(fixed))
        elif fixed != ("ok", want[1]):
            c.fail("wrong repaired value", got=repr(fixed),
                   want=repr(want[1]), report=out[2])
        n = len(want[2])
        rec.label("ops %s" % (n if n < 6 else "6+"))
    rec.case(c.key(), want[0] == "rec",
             lambda: c.desc(report=out[2], value=repr(fixed)[:300]))


def part_for(dom):
    def part(src, rec):
        g = gen_grammar(src, dom, boost={
            "recover": 2, "recover_with": 2, "recover_with_fn": 2}
            if src.below(2) else None)
        for c in case_inputs(src, g, 5):
            check(c, rec)
    return part


def enum_part(max_size, max_len):
    inputs = enum.inputs(max_len)
    gs = enum.grammars(max_size)

    def part(src, rec):
        t, eof = gs[src.below(len(gs))]
        g = enum.to_g(t, eof)
        parser = build(g).start
        for s in inputs:
            for mi in (5, 1):
                c = Case(g, parser)
                c.mode = Mode("plain", s, mi)
                check(c, rec)
    return ("exhaustive size<=%d len<=%d" % (max_size, max_len), part,
            len(gs), lambda i: [i])


def long_part(src, rec):
    c = long_case(src, rec, many_errors=src.chance(40))
    if c is not None:
        check(c, rec)


def deep_part(src, rec):
    c = deep_case(src, rec)
    if c is not None:
        check(c, rec)


def parts(tier):
    k = 6 if tier == "quick" else 80
    return [
        ("sequences", part_for("seq"), 9000 * k),
        ("text", part_for("text"), 7000 * k),
        ("tokens", part_for("tok"), 6000 * k),
        ("wide", wide_part(check), 600 * k),
        ("long", long_part, 300 * k),
        ("pumped", pump_part(
            same_repair, lambda src: src.pick((1, 1, 1, 2))), 25 * k),
        ("deep", deep_part, 300 * k),
        enum_part(4, 3) if tier == "quick" else enum_part(5, 4),
    ]
