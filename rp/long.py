"""Long inputs: flat repetitions of small items, and inputs with many errors."""
from . import model as M
from .common import Case, gen_mode
from .engine import Discard
from .grammar import (
    G, Gen, N, SeqDom, TextDom, TokDom, build, mk_rep, mk_seq, mk_un, sample
)
from .real import LX, Mode, interp

DOMS = {"seq": SeqDom, "text": TextDom, "tok": TokDom}


def sample_of(dom, node, src):
    g = G(dom)
    g.start = node if node is not None else N("pure", ("p",), True)
    return sample(g, src, 10)


def accepts(g, out, dom):
    """Does the reference accept the whole of `out`?"""
    if dom.name == "tok":
        try:
            m = Mode("lex", LX.split_tokens(out, dom.re), src=out)
        except LX.LexError:
            return False
    else:
        m = Mode("sl" if dom.name == "text" else "plain", out)
    try:
        r = M.plain(interp(g, m))
    except (M.Ill, M.OutOfFuel):
        return False
    return r[0] == "ok" and r[2] == len(m.stream)


class SkipDom:
    """Leaves that can be repaired by skipping only."""

    @staticmethod
    def seq(dom):
        def leaf(src, nn):
            els = [x for x in dom.alpha if src.chance(40)]
            return N("satisfy", (("in", tuple(els or dom.alpha[:1])),), False)
        return leaf

    @staticmethod
    def text(dom):
        res = ((r"\d+", ("1", "42")), (r"[a-z]+", ("a", "xy")),
               (r"[,;]", (",", ";")), (r"\n *", ("\n", "\n  ")))

        def leaf(src, nn):
            pat, samples = src.pick(res)
            return N("regexp", (pat, 0, samples), False)
        return leaf

    @staticmethod
    def tok(dom):
        def leaf(src, nn):
            return N("token", (src.pick(dom.kinds),), False)
        return leaf


LENGTHS = ((6, 60), (5, 150), (4, 400), (3, 1000), (1, 2500))


def long_case(src, rec, dom_name=None, exclude=(), errors=None,
              lengths=LENGTHS, many_errors=False):
    """
    A Case with a long input (mode set), or None. `errors`: mutations to
    apply, None for a random small number. `many_errors`: skip-only leaves
    and junk in up to 40 of the items.
    """
    dom_name = dom_name or src.pick(("seq", "seq", "text", "tok"))
    dom = DOMS[dom_name](src)
    ex = set(exclude) | {"chainl1", "chainr1"}
    if many_errors:
        dom.leaf = getattr(SkipDom, dom_name)(dom)
        ex |= {"recover_with", "recover_with_fn", "attempt", "maybe"}
    gen = Gen(src, dom, exclude=ex, n_rules=0, max_depth=2)
    if many_errors:
        item = mk_seq("seq", gen.dom.leaf(src, True), gen.dom.leaf(src, True))
        if src.chance(30):
            item = mk_seq("seql", item, gen.dom.leaf(src, True))
    else:
        item = gen.node(True, False, 2)
    kind = src.pick(("many", "sep_by", "nested", "many"))
    sepn = gen.dom.leaf(src, True) if src.chance(50) else \
        gen.node(True, True, 1)
    if kind == "many":
        unit, gap = item, None
        start = mk_un("many", item, nullable=True)
    elif kind == "sep_by":
        unit, gap = item, sepn
        start = mk_rep("sep_by", item, sepn)
    else:
        inner = mk_seq("seq", item, mk_un(
            "many", mk_seq("seqr", sepn, item), nullable=True))
        unit, gap = mk_seq("seql", inner, gen.node(True, True, 0)), None
        start = mk_un("many", unit, nullable=True)
    if src.chance(30):
        # what follows sees what the repetition could have gone on with
        start = mk_seq("seql", start, gen.dom.leaf(src, True))
    g = G(dom)
    g.start = start
    if src.chance(70):
        g.start = mk_seq("seql", start, N("eof", (), True))
    glue = "" if dom_name == "text" else " " if dom_name == "tok" else []
    h = G(dom)
    h.start = mk_rep("sep_by", item, sepn) if kind == "sep_by" else \
        mk_un("many", unit, nullable=True)
    for _ in range(8):
        units = [sample_of(dom, unit, src) for _ in range(3)]
        gaps = [sample_of(dom, gap, src) for _ in range(2)]
        out = units[0]
        for i in range(1, 4):
            out = out + glue + gaps[i % 2] + glue + units[i % 3]
        if accepts(h, out, dom):
            break
    else:
        rec.label("no valid sample")
        return None
    want_len = src.weighted(lengths)
    left = src.rng_int(5, 40) if many_errors else 0
    every = src.pick((1, 2, 5))
    out = units[0]
    i = 1
    while len(out) < want_len and i < 3000:
        u = units[i % 3]
        if left and i % every == 0:
            left -= 1
            at = 1 + src.below(max(1, len(u) - 1))
            junk = [dom.junk] * src.rng_int(1, 3) if dom_name == "seq" \
                else "~" if dom_name == "text" else " ( "
            u = u[:at] + junk + u[at:]
        out = out + glue + gaps[i % 2] + glue + u
        i += 1
    if not many_errors:
        n = errors if errors is not None else src.weighted(
            [(4, 1), (3, 0), (2, 2)])
        if n:
            out = dom.mutate(src, out, n)
        if n and src.chance(25):
            # one long gap
            at = src.below(len(out) + 1)
            gap = src.rng_int(1, src.pick((80, 300, 1500, 3000)))
            out = out[:at] + (
                [dom.junk] * gap if dom_name == "seq" else
                "~" * gap if dom_name == "text" else " ," * gap) + out[at:]
    c = Case(g, build(g).start)
    try:
        c.mode = gen_mode(src, g, 5 if src.chance(70) else None, out)
    except Discard:
        return None
    c.fuel = 80000
    c.max_depth = 400 if many_errors else 60
    return c
