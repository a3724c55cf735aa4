"""Wide grammars: dozens of alternatives, optional parts or parts in a row."""
from .common import Case, gen_mode
from .engine import Discard
from .grammar import (
    G, N, SeqDom, TextDom, build, mk_alt, mk_bind, mk_rep, mk_seq, mk_un,
    sample
)

WORDS = tuple("%s%s" % (a, b) for a in "abcdefgh" for b in "01234567")
ALPHABETS = (
    WORDS,
    tuple(range(64)),
    tuple((i, i % 3) for i in range(64)),
    tuple(chr(0x41 + i) for i in range(58)),
)


def nest(src, nodes, join):
    """All nodes joined by a binary combinator, nested in some way."""
    how = src.below(4)
    nodes = list(nodes)
    if how == 0:
        r = nodes[0]
        for x in nodes[1:]:
            r = join(r, x)
        return r
    if how == 1:
        r = nodes[-1]
        for x in reversed(nodes[:-1]):
            r = join(x, r)
        return r
    if how == 2:
        while len(nodes) > 1:
            nodes = [join(nodes[i], nodes[i + 1])
                     if i + 1 < len(nodes) else nodes[i]
                     for i in range(0, len(nodes), 2)]
        return nodes[0]
    while len(nodes) > 1:
        i = src.below(len(nodes) - 1)
        nodes[i:i + 2] = [join(nodes[i], nodes[i + 1])]
    return nodes[0]


def wide_case(src, rec, most=60):
    """A Case with a wide grammar (mode set), or None."""
    text = src.chance(35)
    if text:
        dom = TextDom(src)
        alpha = dom.lits = list(WORDS)
    else:
        dom = SeqDom(src)
        alpha = dom.alpha = src.pick(ALPHABETS)
        dom.chars = all(type(x) is str and len(x) == 1 for x in alpha)
        dom.junk = "~" if dom.chars else ("junk",)
    m = src.rng_int(2, src.pick((10, 20, most)))
    m = min(m, len(alpha))
    start = src.below(len(alpha))
    els = [alpha[(start + i) % len(alpha)] for i in range(m)]
    deco = src.pick((0, 0, 5, 30))

    def leaf(x):
        n = N("literal", (x,), False) if text else \
            N("sym", (x, None), False)
        if src.chance(deco):
            k = src.below(7)
            if k == 0:
                n = mk_un("label", n, "L%s" % (x,))
            elif k == 1:
                n = mk_un("recover_with", n, "rw", None)
            elif k == 2:
                n = mk_un("recover", n)
            elif k == 3:
                n = mk_un("fmap", n, ("tag", 1))
            elif k == 4:
                n = mk_un("attempt", n)
            elif k == 5:
                n = mk_alt(n, N("unexpected", ("u%s" % (x,),), False))
            elif not text:
                n = N("satisfy", (("in", (x,)),), False)
        return n

    def alt(x, y):
        return mk_alt(x, y, src.below(2))

    def seq(x, y):
        return mk_seq(src.pick(("seq", "seq", "seql", "seqr")), x, y)

    leaves = [leaf(x) for x in els]
    extra = leaf(alpha[(start + m) % len(alpha)])
    kind = src.pick(("alts", "opts", "seq", "attempts", "manys", "tower",
                     "binds", "rules"))
    g = G(dom)
    if kind == "alts":
        p = nest(src, leaves, alt)
        if src.chance(40):
            p = mk_rep("sep_by", p, extra) if src.chance(50) else \
                mk_un("many", p, nullable=True)
    elif kind == "opts":
        p = nest(src, [mk_un("maybe", x, nullable=True)
                       if src.chance(95) else x for x in leaves], seq)
        if src.chance(60):
            p = mk_seq("seq", p, extra)
    elif kind == "seq":
        p = nest(src, leaves, seq)
    elif kind == "attempts":
        p = nest(src, [
            mk_un("attempt", mk_seq("seq", extra, x))
            if src.chance(90) else x for x in leaves], alt)
    elif kind == "manys":
        p = nest(src, [mk_un("many", x, nullable=True)
                       for x in leaves[:25]], seq)
    elif kind == "tower":
        p = leaves[0]
        for x in leaves[1:]:
            k = src.below(8)
            if k == 0:
                p = mk_un("label", p, "L%s" % src.below(3))
            elif k == 1:
                p = mk_un("fmap", p, ("tag", 1))
            elif k == 2:
                p = mk_un("recover", p)
            elif k == 3:
                p = mk_un("maybe", p, nullable=True)
            elif k == 4:
                p = mk_seq("seqr", x, p)
            elif k == 5:
                p = mk_alt(x, p) if src.chance(50) else mk_alt(p, x)
            elif k == 6 and src.chance(20):
                p = mk_un("attempt", p)
            else:
                p = mk_un("recover_with", p, "rw", "R")
    elif kind == "binds":
        p = leaves[0]
        for x in leaves[1:]:
            p = mk_bind(p, (x, leaves[0]) if src.chance(30) else (x,))
    else:
        # a chain of rules, each handing over to the next
        p = leaves[0]
        for x in leaves[1:30]:
            p = mk_seq("seq", x, p) if src.chance(50) else mk_alt(x, p)
            g.rules.append(p)
            g.rule_nn.append(True)
            p = N("ref", (len(g.rules) - 1,), False, False)
    g.start = p
    if src.chance(70):
        g.start = mk_seq("seql", p, N("eof", (), True))
    if src.chance(15) and kind != "alts":
        out = [src.pick(alpha) for _ in range(src.below(6))]
        if text:
            out = "".join(out)
    else:
        out = sample(g, src, 200)
        if kind in ("alts", "attempts") and src.chance(60):
            # nesting makes the far ones rare otherwise
            x = [src.pick(els)]
            if kind == "attempts":
                x = [alpha[(start + m) % len(alpha)]] + x
            out = "".join(x) if text else x
    step = 2 if text else 1
    k = src.below(4)
    if k == 1:
        out = dom.mutate(src, out, src.rng_int(1, 2))
    elif k == 2 and len(out) > 1:
        # a few elements in a row are missing
        at = src.below(len(out)) // step * step
        out = out[:at] + out[at + step * src.rng_int(1, 8):]
    elif k == 3:
        at = src.below(len(out) + 1)
        out = out[:at]
    c = Case(g, build(g).start)
    try:
        c.mode = gen_mode(src, g, 5 if src.chance(60) else None, out)
    except Discard:
        return None
    c.fuel = 40000
    rec.label("wide " + kind)
    return c


def wide_part(check):
    def part(src, rec):
        c = wide_case(src, rec)
        if c is not None:
            check(c, rec)
    return part
