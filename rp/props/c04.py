"""C04: a repaired value is the parse of the input with the reported edits."""
from .. import cfg
from ..common import (
    Case, case_inputs, gen_grammar, inner_eof, model_recover, no_exc, run_real
)
from ..deep import deep_case
from ..engine import Discard
from ..grammar import Gen, SeqDom, build, gen_input
from ..long import long_case
from ..pump import pump_part, value_of_report
from ..model import OutOfFuel
from ..real import Mode, interp, unwrap
from ..wide import wide_part
from .c02 import SymDom

RULE = (
    "a case is a random grammar (layout included) and an input that the real "
    "parser repaired; the reported edits are applied and every derivation of "
    "the edited input under the unordered context-free reading of the grammar "
    "is enumerated; the repaired value must be one of them, and must equal "
    "the plain parse of the edited input where that is unambiguous; "
    "non-trivial: repaired with at least one operation after consumed input, "
    "or two or more operations"
    "; also inputs of up to 500 elements with several errors and inputs "
    "nested up to 260 levels"
    "; also wide grammars: up to 60 alternatives, optional parts, parts in "
    "a row, or combinators on top of each other"
)


def positions(c, errs):
    """Stream positions of the reported locations."""
    m = c.mode
    if m.name in ("lex", "lexm"):
        where = {}
        for i in range(len(m.stream), -1, -1):
            where[m.loc(i)] = i
        try:
            return [where[e[0]] for e in errs]
        except KeyError:
            c.fail("location of no token", got=repr(errs))
    return [e[0][0] for e in errs]


def check(c, rec):
    if model_recover(c)[0] == "ill":     # bounds the size of the run
        return None
    res, exc = run_real(c, True)
    no_exc(c, exc, True)
    fixed = unwrap(res, True)
    out = unwrap(res)
    if out[0] == "ok" or fixed[0] != "ok":
        rec.label("not repaired")
        return None
    errs = out[1]
    if any(e[3] is None for e in errs):
        c.fail("repaired parse with an error without operation",
               got=repr(errs))
    ps = positions(c, errs)
    ops = [(p, e[3]) for p, e in zip(ps, errs)]
    try:
        vals = cfg.derive(interp(c.g, c.mode), ops)
    except OutOfFuel:
        raise Discard("derivation too big")
    if fixed[1] not in vals:
        c.fail("the repaired value is not a derivation of the input with the "
               "reported edits", report=out[2], got=repr(fixed[1]),
               derivations=repr(list(vals)[:5]))
    rec.label("repaired, %d derivation%s" % (
        min(len(vals), 3), "s" if len(vals) > 1 else ""))
    rec.case(c.key(), ps[0] > 0 or len(ops) > 1,
             lambda: c.desc(report=out[2], value=repr(fixed[1])[:300]))
    return ops, fixed[1]


def part_for(dom):
    def part(src, rec):
        g = gen_grammar(src, dom)
        for c in case_inputs(src, g, 5):
            check(c, rec)
    return part


def long_part(src, rec):
    c = long_case(src, rec, many_errors=src.chance(60))
    if c is not None and len(c.mode.stream) <= 500:
        check(c, rec)


def apply_edits(x, ops, table):
    out = []
    at = 0
    for p, op in ops:
        out += x[at:p]
        at = p
        if op[0] == "skip":
            at = p + op[1]
        else:
            out.append(table[op[1]])
    return out + list(x[at:])


def reparse_part(src, rec):
    """Plain parse of the edited input, over single symbols."""
    dom = SymDom(src)
    g = Gen(src, dom, exclude=("recover_with", "recover_with_fn")).grammar()
    if inner_eof(g):
        return      # insertions may follow an inner eof
    parser = build(g).start
    table = {repr(s): s for s in dom.alpha}
    for _ in range(4):
        c = Case(g, parser)
        c.mode = Mode("plain", gen_input(g, src), src.pick((5, 1, 2)))
        r = check(c, rec)
        if r is None:
            continue
        ops, val = r
        # a skip right at eof stops the edited input where the parser stopped
        y = apply_edits(c.mode.stream, ops, table)
        d = Case(g, parser)
        d.mode = Mode("plain", y)
        try:
            vals = cfg.derive(interp(g, d.mode), [])
        except OutOfFuel:
            raise Discard("derivation too big")
        res, exc = run_real(d, False)
        no_exc(d, exc, False)
        out = unwrap(res)
        if val not in vals:
            c.fail("the edited input does not derive the repaired value",
                   edited=repr(y), got=repr(val))
        if len(vals) == 1:
            rec.label("unambiguous re-parse " + out[0])
            if out[0] == "ok" and out[1] != val:
                c.fail("plain parse of the edited input differs",
                       edited=repr(y), got=repr(val), want=repr(out[1]))


def deep_part(src, rec):
    c = deep_case(src, rec)
    if c is not None:
        check(c, rec)


def parts(tier):
    k = 5 if tier == "quick" else 80
    return [
        ("sequences", part_for("seq"), 8000 * k),
        ("text", part_for("text"), 7000 * k),
        ("tokens", part_for("tok"), 6000 * k),
        ("wide", wide_part(check), 600 * k),
        ("long", long_part, 300 * k),
        ("pumped", pump_part(
            value_of_report, lambda src: src.pick((1, 1, 1, 2))), 25 * k),
        ("deep", deep_part, 200 * k),
        ("re-parse", reparse_part, 5000 * k),
    ]
