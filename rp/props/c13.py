"""C13: derived combinators and spellings mean the same thing."""
from ..common import Case, case_inputs, gen_grammar
from ..engine import Discard
from ..grammar import Op, build, kinds
from ..long import long_case
from .c17 import huge_part
from ..real import real_parse, unwrap
from .c12 import flags, outcome

RULE = (
    "random grammars (terminals of all three kinds, recursion, recovery "
    "combinators inside) rich in the derived combinators, built twice: "
    "'definitions': through the library's sep_by/between/chainl1/chainr1/"
    "then/apply and through seq, many, maybe and fmap only; 'spellings': "
    "through operators, methods or functions; outcomes (value, report, "
    "repaired value) of both compared on the same inputs with and without "
    "recovery; non-trivial: the grammar contains what is being compared and "
    "the input is not empty"
    "; also long flat inputs"
)

DERIVED = ("sep_by", "between", "chainl1", "chainr1", "tuple")


def d_sep_by(n, go):
    import reparsec as R
    p, s = go(n.args[0]), go(n.args[1])
    tail = R.many(R.fmap(R.seq(s, p), lambda t: t[1]))
    return R.fmap(
        R.maybe(R.seq(p, tail)),
        lambda v: [] if v is None else [v[0], *v[1]])


def d_between(n, go):
    import reparsec as R
    o, p, c = go(n.args[0]), go(n.args[1]), go(n.args[2])
    return R.fmap(R.seq(o, R.seq(p, c)), lambda v: v[1][0])


def d_chain(left):
    def d(n, go):
        import reparsec as R
        p, o = go(n.args[0]), R.fmap(go(n.args[1]), Op)

        def fold(v):
            first, rest = v
            if left:
                for op, x in rest:
                    first = op(first, x)
                return first

            def right(x, rest):
                if not rest:
                    return x
                op, y = rest[0]
                return op(x, right(y, rest[1:]))
            return right(first, rest)
        return R.fmap(R.seq(p, R.many(R.seq(o, p))), fold)
    return d


def d_tuple(n, go):
    import reparsec as R
    ps = [go(p) for p in n.args[0]]
    r = R.fmap(ps[0], lambda v: [v])
    for p in ps[1:]:
        r = R.fmap(R.seq(r, p), lambda t: t[0] + [t[1]])
    ap = ("ap",) if n.args[1] else ()
    return R.fmap(r, lambda v: ap + tuple(v))


OVERRIDE = {
    "sep_by": d_sep_by, "between": d_between, "chainl1": d_chain(True),
    "chainr1": d_chain(False), "tuple": d_tuple,
}


def compare(c, other, what, nt, rec, n1, n2, **kw):
    for recover in flags(c, rec):
        a = outcome(c.parser, c.mode, recover)
        b = outcome(other, c.mode, recover)
        if a != b:
            c.fail("%s differ" % what, recover=recover,
                   **{n1: repr(a), n2: repr(b)}, **kw)
        rec.label("%s %s %s" % (what, recover, a[0] if a[0] == "exc"
                                else a[0][0] + "/" + a[1][0]))
        rec.case("%s|%s|%s|%s" % (what, recover, c.key(), kw),
                 nt and len(c.mode.stream) > 0,
                 lambda: c.desc(recover=recover, outcome=repr(a)[:300]))


def definition_part(src, rec):
    for _ in range(5):
        g = gen_grammar(src, boost={k: 5 for k in DERIVED})
        ks = kinds(g) & set(DERIVED)
        if ks:
            break
    else:
        return
    for k in ks:
        rec.label("uses " + k)
    q = build(g, override=OVERRIDE).start
    for c in case_inputs(src, g, 3):
        compare(c, q, "definitions", True, rec, "derived", "definition")


def long_part(src, rec):
    c = long_case(src, rec, many_errors=src.chance(20))
    if c is None or len(c.mode.stream) > 1200:
        return
    if set(kinds(c.g)) & set(DERIVED):
        q = build(c.g, override=OVERRIDE).start
        compare(c, q, "definitions", True, rec, "derived", "definition")
    s = src.below(3)
    q = build(c.g, spelling=s).start
    compare(c, q, "spellings", True, rec, "built", "spelled", spelling=s)


def spelling_part(src, rec):
    g = gen_grammar(src)
    s1 = src.below(3)
    s2 = (s1 + 1 + src.below(2)) % 3
    p = build(g, spelling=s1).start
    q = build(g, spelling=s2).start
    for c in case_inputs(src, g, 3):
        c.parser = p
        compare(c, q, "spellings", len(kinds(g)) > 3, rec,
                "spelling %d" % s1, "spelling %d" % s2)


def parts(tier):
    k = 6 if tier == "quick" else 80
    return [
        ("definitions", definition_part, 9000 * k),
        ("spellings", spelling_part, 6000 * k),
        ("long", long_part, 200 * k),
        ("huge", huge_part, 8 * k),
    ]
