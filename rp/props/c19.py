"""C19: combinators obey their algebraic laws."""
from .. import real  # noqa: F401  (puts the code under test on the path)
from ..common import Case, gen_grammar, gen_mode, model_plain, model_recover
from ..engine import Discard
from ..grammar import (
    G, N, bind_key, build, canon, mk_alt, mk_seq, mk_un,
    show, walk
)
from .c12 import outcome

from reparsec import primitive as PR  # isort: skip

RULE = (
    "random parsers p, q, r (sub-parsers of random grammars, with shared "
    "recursive rules), random functions and random surrounding parsers; the "
    "two sides of one of the laws are built through the public API, put in "
    "the same surroundings and parsed on the same input, with and without "
    "recovery: equal outcome (value or ParseError items and rendering, or "
    "RuntimeError); "
    "non-trivial: the input was rejected, or accepted with at least two "
    "elements"
)


def fst(t):
    return t[0]


def snd(t):
    return t[1]


def right(t):
    (a, b), c = t
    return (a, (b, c))


def cons(t):
    return [] if t is None else [t[0]] + t[1]


FNS = (
    lambda v: ("f", v),
    lambda v: [v],
    lambda v: None,
    lambda v: ("k", repr(canon(v))[:40]),
    lambda v: "",
)


class L:
    """What a law can use."""

    def __init__(self, src, nodes, b, g):
        import reparsec as R
        self.R = R
        self.src = src
        self.nullable = nodes[0].nullable
        self.backs_up = any(n.kind == "attempt" for n in walk(g))
        self.p, self.q, self.r = [b.node(n) for n in nodes]
        self.f = src.pick(FNS)
        self.g = src.pick(FNS)
        self.x = src.pick((None, 7, "", (1, 2)))
        self.lab = src.pick(("l", "", "a"))

    def k(self, *ps):
        return lambda v: ps[bind_key(canon(v), len(ps))]


def law_seq_assoc(l):
    R = l.R
    return (R.seq(R.seq(l.p, l.q), l.r).fmap(right),
            R.seq(l.p, R.seq(l.q, l.r)))


def law_seqlr_assoc(l):
    R = l.R
    k = l.src.below(3)
    if k == 0:
        return (l.p >> l.q) >> l.r, l.p >> (l.q >> l.r)
    if k == 1:
        return (l.p << l.q) << l.r, l.p << R.seq(l.q, l.r)
    return (l.p >> l.q) << l.r, l.p >> (l.q << l.r)


def law_pure_unit(l):
    R = l.R
    k = l.src.below(6)
    u = PR.Pure(l.x) if l.src.below(2) else PR.PureFn(lambda: l.x)
    if k == 0:
        return R.seq(u, l.p).fmap(snd), l.p
    if k == 1:
        return R.seq(l.p, u).fmap(fst), l.p
    if k == 2:
        return R.seqr(u, l.p), l.p
    if k == 3:
        return R.seql(l.p, u), l.p
    if k == 4:
        return R.seql(u, l.p), l.p.fmap(lambda _: l.x)
    return R.seqr(l.p, u), l.p.fmap(lambda _: l.x)


def law_bind(l):
    R = l.R
    f, g = l.k(l.q, l.r), l.k(l.r, l.p, l.q)
    k = l.src.below(4)
    if k == 0:
        return PR.Pure(l.x).bind(f), f(l.x)
    if k == 1:
        return l.p.bind(PR.Pure), l.p
    if k == 2:
        return l.p.bind(f).bind(g), l.p.bind(lambda v: f(v).bind(g))
    return l.p.bind(lambda v: l.q.fmap(lambda w: (v, w))), R.seq(l.p, l.q)


def law_fmap(l):
    R = l.R
    k = l.src.below(4)
    if k == 0:
        return l.p.fmap(lambda v: v), l.p
    if k == 1:
        return l.p.fmap(l.f).fmap(l.g), l.p.fmap(lambda v: l.g(l.f(v)))
    if k == 2:
        return l.p.bind(lambda v: PR.Pure(l.f(v))), l.p.fmap(l.f)
    return (R.seq(l.p.fmap(l.f), l.q.fmap(l.g)),
            R.seq(l.p, l.q).fmap(lambda t: (l.f(t[0]), l.g(t[1]))))


def law_alt(l):
    R = l.R
    k = l.src.below(4)
    if k == 0:
        return (l.p | l.q) | l.r, l.p | (l.q | l.r)
    if k == 1:
        return (l.p | l.q).fmap(l.f), l.p.fmap(l.f) | l.q.fmap(l.f)
    if k == 2:
        return PR.Pure(l.x) | l.p, PR.Pure(l.x)
    return R.alt(l.p, l.q), l.p | l.q


def law_unexpected(l):
    R = l.R
    u = PR.unexpected(l.lab)
    k = l.src.below(8)
    if k == 0:
        return R.seq(u, l.p), u
    if k == 1:
        return u.bind(l.k(l.p)), u
    if k == 2:
        return u.fmap(l.f), u
    if k == 3:
        return PR.unexpected("z").label(l.lab), u
    if k == 4:
        return u.attempt(), u
    if k == 5 and not l.backs_up:   # else the choice reports where it began
        return (u | l.p).label("z"), l.p.label("z")
    if k == 6 and not l.backs_up:
        return (l.p | u).label("z"), l.p.label("z")
    return u.many(), u.maybe().fmap(lambda _: [])


def law_many(l):
    R = l.R
    k = l.src.below(3)
    m = l.p.many()
    if k == 0:
        return m, R.maybe(R.seq(l.p, l.p.many())).fmap(cons)
    if k == 1:
        return m, R.seq(l.p, m).fmap(cons) | PR.Pure([])
    # the other way round: a definition by recursion
    if l.nullable:
        return m, R.maybe(R.seq(l.p, l.p.many())).fmap(cons)
    d = R.Delay()
    d.define(R.seq(l.p, d).fmap(cons) | PR.PureFn(list))
    return m, d


def law_maybe(l):
    R = l.R
    return l.p.maybe(), l.p | PR.Pure(None)


def law_attempt(l):
    R = l.R
    k = l.src.below(3)
    if k == 0:
        return l.p.attempt().attempt(), l.p.attempt()
    if k == 1:
        return l.p.fmap(l.f).attempt(), l.p.attempt().fmap(l.f)
    both = R.attempt(l.p) | R.attempt(l.q)
    return both.attempt(), both


def law_label(l):
    if l.src.below(3) == 0:
        return l.p.label(l.lab).fmap(l.f), l.p.fmap(l.f).label(l.lab)
    return l.p.label("inner").label(l.lab), l.p.label(l.lab)


def law_halves(l):
    R = l.R
    k = l.src.below(7)
    if k == 0:
        return R.seql(l.p, l.q), R.seq(l.p, l.q).fmap(fst)
    if k == 1:
        return R.seqr(l.p, l.q), R.seq(l.p, l.q).fmap(snd)
    if k == 2:
        return l.p << l.q, l.p.seql(l.q)
    if k == 3:
        return l.p >> l.q, l.p.seqr(l.q)
    if k == 4:
        return R.between(l.p, l.r, l.q), l.p >> l.q << l.r
    if k == 5:
        return l.q.between(l.p, l.r), R.seq(R.seq(l.p, l.q), l.r).fmap(
            lambda t: t[0][1])
    first = l.p.fmap(lambda v: v)
    return (first.then(l.q).then(l.r).apply(lambda a, b, c: (a, (b, c))),
            R.seq(l.p, R.seq(l.q, l.r)))


def law_sep_by(l):
    R = l.R
    k = l.src.below(2)
    if k == 0:
        return l.p.sep_by(l.q), R.maybe(
            R.seq(l.p, (l.q >> l.p).many())).fmap(cons)
    # a chain collects the same elements
    op = l.q.fmap(lambda o: lambda a, b: a + [b])
    first = l.p.fmap(lambda v: [v])
    return (R.chainl1(l.p.fmap(lambda v: (v,)), l.q.fmap(
        lambda o: lambda a, b: a + b)).fmap(list),
        R.seq(first, (l.q >> l.p).many()).fmap(lambda t: t[0] + t[1]))


LAWS = (
    ("seq associative", law_seq_assoc),
    ("seql/seqr associative", law_seqlr_assoc),
    ("Pure is the unit", law_pure_unit),
    ("bind", law_bind),
    ("fmap", law_fmap),
    ("alt", law_alt),
    ("unexpected", law_unexpected),
    ("many unrolled", law_many),
    ("maybe", law_maybe),
    ("attempt", law_attempt),
    ("label", law_label),
    ("halves", law_halves),
    ("sep_by", law_sep_by),
)


def surroundings(src, l, q):
    """A random function from parsers to parsers, and its description."""
    R = l.R
    from reparsec.layout import block
    from reparsec.sequence import eof
    k = src.below(14)
    if k <= 2:
        return (lambda p: p), ""
    if k <= 5:
        return (lambda p: p << eof()), "<< eof()"
    if k == 6:
        return (lambda p: R.seq(p, q)), "+ q"
    if k == 7:
        return (lambda p: R.seq(q, p)), "q +"
    if k == 8:
        return (lambda p: p | q), "| q"
    if k == 9:
        return (lambda p: q | p), "q |"
    if k == 10:
        return (lambda p: p.attempt()), "attempt"
    if k == 11:
        return (lambda p: R.seq(p.maybe(), q)), "maybe + q"
    if k == 12:
        return (lambda p: R.seq(p.label("outer"), q)), "label + q"
    return (lambda p: p.many()), "many"


def pick_nodes(src, g):
    pool = [n for n in walk(g)]
    big = [n for n in pool if n.args and any(
        isinstance(a, N) for a in n.args)] or pool
    return [src.pick(big if src.chance(70) else pool) for _ in range(3)]


def guard(g, nodes):
    """Grammars whose reference runs bound the size of both sides."""
    p, q, r = nodes
    out = []
    for st in (mk_seq("seq", p, mk_seq("seq", q, r)),
               mk_alt(p, mk_alt(q, r)), mk_seq("seq", q, p),
               mk_un("many", p, nullable=True),
               mk_seq("seq", p, mk_un("many", mk_seq("seqr", q, p),
                                      nullable=True))):
        h = G(g.dom)
        h.rules, h.rule_nn, h.start = g.rules, g.rule_nn, st
        out.append(h)
    return out


def law_part(which, recover):
    name, law = LAWS[which]

    def part(src, rec):
        g = gen_grammar(src)
        nodes = pick_nodes(src, g)
        gs = guard(g, nodes)
        b = build(g)
        l = L(src, nodes, b, g)
        q = l.q if src.chance(50) else b.node(src.pick(walk(g)))
        lhs, rhs = law(l)
        ctx, desc = surroundings(src, l, q)
        ctx2, desc2 = surroundings(src, l, l.r)
        lhs, rhs = ctx2(ctx(lhs)), ctx2(ctx(rhs))
        for _ in range(3):
            gi = src.pick(gs)
            c = Case(gi, lhs)
            try:
                c.mode = gen_mode(src, gi)
            except Discard:
                continue
            try:
                for h in gs:
                    d = Case(h, lhs)
                    d.mode = c.mode
                    (model_recover if recover else model_plain)(
                        d, 500 if recover else 3000)
            except Discard:
                rec.label("too big")
                continue
            x = outcome(lhs, c.mode, recover)
            y = outcome(rhs, c.mode, recover)
            if x != y:
                c.fail("law broken: " + name, p=show(nodes[0]),
                       q=show(nodes[1]), r=show(nodes[2]),
                       surroundings=(desc, desc2), left=repr(x)[:600],
                       right=repr(y)[:600])
            k = x[0] if x[0] == "exc" else x[0][0]
            if recover and k == "err" and x[1][0] == "ok":
                k = "repaired"
            rec.label("%s%s %s" % (name, " (recovery)" * recover, k))
            rec.case("%s|%s|%s|%s|%s|%s" % (
                recover, name, nodes, desc, desc2, c.key()),
                k != "ok" or len(c.mode.stream) > 1,
                lambda: c.desc(law=name, p=show(nodes[0]),
                               q=show(nodes[1]), r=show(nodes[2]),
                               surroundings=(desc, desc2), outcome=k))
    part.may_be_slow = True
    return part


def left_part(src, rec):
    """Once a branch succeeds, or fails after consuming, the rest is moot."""
    g = gen_grammar(src)
    nodes = pick_nodes(src, g)
    gs = guard(g, nodes)
    b = build(g)
    l = L(src, nodes, b, g)
    R = l.R
    from reparsec.sequence import eof
    tails = (
        lambda p: p, lambda p: p << eof(), lambda p: R.seq(p, l.r),
        lambda p: p.label("outer"), lambda p: p.fmap(l.f),
        lambda p: p | l.r, lambda p: p.bind(l.k(l.r, l.q)),
    )
    tail = src.pick(tails)
    first = src.below(4) > 0
    recover = src.chance(40)
    for _ in range(3):
        gi = src.pick(gs)
        c = Case(gi, l.p)
        try:
            c.mode = gen_mode(src, gi)
            for h in gs:
                d = Case(h, l.p)
                d.mode = c.mode
                if recover:
                    model_recover(d, 500)
                else:
                    model_plain(d, 3000)
        except Discard:
            rec.label("too big")
            continue
        alone = outcome(l.p, c.mode, False)
        if alone[0] == "exc":
            continue
        ok = alone[0][0] == "ok"
        kw = dict(recover=recover, p=show(nodes[0]), q=show(nodes[1]),
                  r=show(nodes[2]))
        if ok:
            x = outcome(tail(l.p | l.q), c.mode, recover)
            y = outcome(tail(l.p), c.mode, recover)
            what = "p | q is p where p succeeds"
            if first:
                x2 = outcome(tail(l.p.attempt()), c.mode, recover)
                if x2 != y:
                    c.fail("law broken: attempt(p) is p where p succeeds",
                           left=repr(x2)[:600], right=repr(y)[:600], **kw)
                x2 = outcome(tail(l.p.maybe()), c.mode, recover)
                if x2 != y:
                    c.fail("law broken: p.maybe() is p where p succeeds",
                           left=repr(x2)[:600], right=repr(y)[:600], **kw)
        else:
            # did it consume?  then maybe(p) fails as well
            if recover and l.backs_up:
                continue
            m = outcome(l.p.maybe(), c.mode, False)
            if m[0][0] == "ok":
                if recover:
                    continue
                what = "p | q goes on with q where p fails at once"
                x = outcome(tail(l.p | l.q).label("all"), c.mode, recover)
                y2 = outcome(tail(l.q).label("all"), c.mode, recover)
                if not same_but_expected(x, y2, l.backs_up):
                    c.fail("law broken: " + what, left=repr(x)[:600],
                           right=repr(y2)[:600], **kw)
                rec.label(what)
                rec.case("%s|%s|%s" % (what, nodes, c.key()), True,
                         lambda: c.desc(law=what, **kw))
                continue
            x = outcome(tail(l.p | l.q), c.mode, recover)
            y = outcome(tail(l.p), c.mode, recover)
            what = "p | q is p where p fails after consuming"
        if x != y:
            c.fail("law broken: " + what, left=repr(x)[:600],
                   right=repr(y)[:600], **kw)
        rec.label(what + " (recovery)" * recover)
        rec.case("%s|%s|%s|%s" % (recover, what, nodes, c.key()),
                 not ok or len(c.mode.stream) > 1,
                 lambda: c.desc(law=what, **kw))


left_part.may_be_slow = True


def same_but_expected(x, y, moved):
    if x[0] == "exc" or y[0] == "exc":
        return x[0] == y[0]
    if x[0][0] != y[0][0]:
        return False
    if x[0][0] == "ok":
        return x[0] == y[0]
    return moved or [e[0] for e in x[0][1]] == [e[0] for e in y[0][1]]


def parts(tier):
    k = 4 if tier == "quick" else 50
    out = [("law: " + LAWS[i][0], law_part(i, False), 1500 * k)
           for i in range(len(LAWS))]
    out += [("law with recovery: " + LAWS[i][0], law_part(i, True), 700 * k)
            for i in range(len(LAWS))]
    out.append(("left branch", left_part, 6000 * k))
    return out
