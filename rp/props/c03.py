"""C03: turning recovery on never changes the verdict on an input."""
from ..common import (
    Case, case_inputs, errs_of, gen_grammar, gen_mode, interesting,
    model_recover, no_exc, run_real
)
from ..deep import deep_case
from ..engine import Discard
from ..grammar import G, N, build, kinds
from ..long import long_case
from ..pump import both, pump_part
from ..wide import wide_case
from ..real import Mode, unwrap

RULE = (
    "a case is a random grammar (layout included) and input, run through the "
    "real code with and without recovery, with several max_insertions, and "
    "with every recovery combinator removed from the grammar; outcomes are "
    "compared with each other; non-trivial: the input is rejected and the "
    "recovering parse found a repair, or the grammar has recovery "
    "combinators and the input is accepted after consuming input"
    "; also long flat inputs with many errors and inputs nested up to "
    "260 levels"
    "; also wide grammars: up to 60 alternatives, optional parts, parts in "
    "a row, or combinators on top of each other"
)
REC_KINDS = frozenset((
    "recover", "recover_with", "recover_with_fn", "token_ins"))


def strip(g):
    """The grammar without recovery combinators."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple([go(y) for y in x])
        if not isinstance(x, N):
            return x
        r = memo.get(id(x))
        if r is None:
            if x.kind in ("recover", "recover_with", "recover_with_fn"):
                r = go(x.args[0])
            elif x.kind == "token_ins":
                r = N("token", x.args[:1], False)
            else:
                r = N(x.kind, go(x.args), x.nullable, x.needs_guard, x.sp)
            memo[id(x)] = (r, x)
            return r
        return r[0]

    h = G(g.dom)
    h.rules = [go(r) for r in g.rules]
    h.start = go(g.start)
    return h


def check(g, ks, c, stripped, src, rec):
    want = model_recover(c)    # bounds the size of the run
    if want[0] == "ill":
        return
    r0, e0 = run_real(c, False)
    no_exc(c, e0, False)
    r1, e1 = run_real(c, True)
    no_exc(c, e1, True)
    plain = unwrap(r0)
    if unwrap(r0, True) != plain:
        c.fail("unwrap(recover=True) differs on a result parsed "
               "without recovery", got=repr(unwrap(r0, True)),
               want=repr(plain))
    rec1 = unwrap(r1)
    fix1 = unwrap(r1, True)
    if plain[0] == "ok":
        if rec1 != plain or fix1 != plain:
            c.fail("recovery changes the outcome of valid input",
                   plain=repr(plain), recovering=repr(rec1),
                   repaired=repr(fix1))
    else:
        errs_of(c, plain)
        if rec1[0] != "err":
            c.fail("invalid input accepted by unwrap() when parsed "
                   "with recovery", plain=repr(plain),
                   recovering=repr(rec1))
        if "attempt" not in ks:
            a, b = plain[1][0], rec1[1][0]
            if a[:3] != b[:3]:
                c.fail("first error differs with recovery",
                       plain=repr(a), recovering=repr(b))
    if stripped is not None:
        d = Case(g, stripped)
        d.mode = c.mode
        r2, e2 = run_real(d, False)
        no_exc(d, e2, False)
        out = unwrap(r2)
        if out != plain:
            c.fail("recovery combinators change a plain parse",
                   with_them=repr(plain), without=repr(out))
    if c.mode.name in ("plain", "slm", "lexm"):
        m = Mode(c.mode.name, c.mode.stream,
                 src.pick((0, 1, 9, 100)), c.mode.src)
        d = Case(g, c.parser)
        d.mode = m
        r3, e3 = run_real(d, False)
        no_exc(d, e3, False)
        if unwrap(r3) != plain:
            d.fail("max_insertions changes a plain parse",
                   default=repr(plain), got=repr(unwrap(r3)))
    rec.label("%s/%s" % (plain[0], fix1[0]))
    rec.case(c.key(), (plain[0] == "err" and fix1[0] == "ok") or (
        plain[0] == "ok" and bool(ks & REC_KINDS)
        and len(c.mode.stream) > 0),
        lambda: c.desc(plain=repr(plain)[:200],
                       recovering=repr(rec1)[:300]))


def part_for(dom):
    def part(src, rec):
        g = gen_grammar(src, dom, boost={
            "recover": 2, "recover_with": 2, "recover_with_fn": 2})
        ks = kinds(g)
        stripped = build(strip(g)).start if ks & REC_KINDS else None
        for c in case_inputs(src, g, 4):
            check(g, ks, c, stripped, src, rec)
    return part


def long_part(src, rec):
    k = src.below(10)
    c = deep_case(src, rec) if k < 2 else wide_case(src, rec) if k < 6 else \
        long_case(src, rec, many_errors=src.chance(40))
    if c is not None:
        ks = kinds(c.g)
        check(c.g, ks, c, build(strip(c.g)).start if ks & REC_KINDS
              else None, src, rec)


def parts(tier):
    k = 6 if tier == "quick" else 80
    return [
        ("sequences", part_for("seq"), 8000 * k),
        ("text", part_for("text"), 7000 * k),
        ("tokens", part_for("tok"), 6000 * k),
        ("long, deep, wide", long_part, 800 * k),
        ("pumped", pump_part(both), 20 * k),
    ]
