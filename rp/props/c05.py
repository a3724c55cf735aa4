"""C05: recovery reports are well formed, ordered and complete."""
from ..common import (
    case_inputs, gen_grammar, model_candidates, model_recover, no_exc,
    run_real
)
from ..deep import deep_case
from ..grammar import kinds
from ..long import long_case
from ..pump import pump_part, right_report
from ..real import unwrap
from ..wide import wide_part

RULE = (
    "a case is a random grammar (layout included) and an input parsed with "
    "recovery; the report is checked against the invariants and must list "
    "the operations of some repair of the reference interpreter that gives "
    "the returned value; non-trivial: two or more error items, or a skip, or "
    "an unrepairable input rejected after consuming input"
    "; also long flat inputs with many errors and inputs nested up to "
    "260 levels"
    "; also wide grammars: up to 60 alternatives, optional parts, parts in "
    "a row, or combinators on top of each other"
)


def check(c, rec, att):
    if model_recover(c)[0] == "ill":       # bounds the size of the run
        return
    r0, e0 = run_real(c, False)
    no_exc(c, e0, False)
    r1, e1 = run_real(c, True)
    no_exc(c, e1, True)
    plain = unwrap(r0)
    out = unwrap(r1)
    fixed = unwrap(r1, True)
    if out[0] == "ok":
        rec.label("accepted")
        return
    if out[0] != "err":
        c.fail("unwrap raised something else", got=repr(out))
    errs = out[1]
    m = c.mode
    n = len(m.stream)
    if not errs:
        c.fail("empty error report")
    # every location is the reference location of a stream position
    if m.name in ("lex", "lexm"):
        where = {}
        for i in range(n + 1):
            where.setdefault(m.loc(i), []).append(i)
    at = []
    for loc, s, exp, op in errs:
        if m.name in ("lex", "lexm"):
            if loc not in where:
                c.fail("location of no token", got=repr(loc))
            at.append(where[loc])
        else:
            p = loc[0]
            if not 0 <= p <= n:
                c.fail("location outside the input", got=repr(errs))
            if loc != m.loc(p):
                c.fail("wrong location", got=repr(loc), want=repr(m.loc(p)))
            at.append([p])
        if s != m.fmt(loc):
            c.fail("loc_str is not fmt_loc(loc)", got=repr((loc, s)))
        for e in exp:
            if type(e) is not str:
                c.fail("expected entry is not a string", got=repr(errs))
    if fixed[0] == "ok":
        lo = 0
        for (loc, s, exp, op), ps in zip(errs, at):
            ps = [p for p in ps if p >= lo]
            if not ps:
                c.fail("errors out of order or inside a skipped region",
                       got=repr(errs))
            p = ps[0]
            if op is None:
                c.fail("recovered parse reports an error without operation",
                       got=repr(errs))
            if op[0] == "skip":
                if op[1] <= 0 or p + op[1] > n:
                    c.fail("bad skip count", got=repr(errs))
                lo = p + op[1]
            elif op[0] == "ins":
                if type(op[1]) is not str:
                    c.fail("inserted label is not a string", got=repr(errs))
                lo = p
            else:
                c.fail("unknown operation", got=repr(errs))
        # whichever repair gave the value, all its operations are listed
        ops = [(loc, op) for loc, s, exp, op in errs]
        same = [x[1] for x in model_candidates(c) if x[0] == fixed[1]]
        if same and not any(
                ops == [(m.loc(p), op) for p, op in x] for x in same):
            c.fail("the report lists the operations of no repair that gives "
                   "this value", got=repr(ops), value=repr(fixed[1]),
                   repairs=repr(same)[:2000])
    else:
        if fixed != out:
            c.fail("unwrap() and unwrap(recover=True) report different "
                   "errors", got=repr(fixed), want=repr(out))
        if len(errs) != 1 or errs[0][3] is not None:
            c.fail("unrepaired parse must report one error without operation",
                   got=repr(errs))
        if not att and out != plain:
            c.fail("report of an unrepairable input differs from the plain "
                   "one", got=repr(out), want=repr(plain))
    nt = len(errs) > 1 or (errs[0][3] or ("",))[0] == "skip" or (
        fixed[0] == "err" and at[0][0] > 0)
    rec.label("%d items%s" % (min(len(errs), 9),
                              "" if fixed[0] == "ok" else " unrepaired"))
    rec.case(c.key(), nt, lambda: c.desc(report=out[2]))


def part_for(dom):
    def part(src, rec):
        g = gen_grammar(src, dom)
        att = "attempt" in kinds(g)
        for c in case_inputs(src, g, 5):
            check(c, rec, att)
    return part


def long_part(src, rec):
    c = long_case(src, rec, many_errors=src.chance(60))
    if c is not None:
        check(c, rec, "attempt" in kinds(c.g))


def deep_part(src, rec):
    c = deep_case(src, rec)
    if c is not None:
        check(c, rec, "attempt" in kinds(c.g))


def parts(tier):
    k = 6 if tier == "quick" else 80
    return [
        ("sequences", part_for("seq"), 8000 * k),
        ("text", part_for("text"), 7000 * k),
        ("tokens", part_for("tok"), 6000 * k),
        ("wide", wide_part(
            lambda c, r: check(c, r, "attempt" in kinds(c.g))), 600 * k),
        ("long", long_part, 300 * k),
        ("pumped", pump_part(
            right_report, lambda src: src.pick((1, 1, 1, 2))), 25 * k),
        ("deep", deep_part, 200 * k),
    ]
