"""Deeply nested inputs: recursive grammars a few hundred levels down."""
from . import model as M
from .common import Case, gen_mode
from .engine import Discard
from .grammar import (
    G, Gen, N, SeqDom, TextDom, TokDom, build, mk_alt, mk_between, mk_rep,
    mk_seq, mk_un
)
from .long import sample_of
from .real import LX, Mode, interp

DOMS = {"seq": SeqDom, "text": TextDom, "tok": TokDom}
DEPTHS = ((6, 12), (6, 40), (4, 120), (2, 260))
FUEL = 60000
MAX_DEPTH = 3600


def accepts(g, out, dom):
    if dom.name == "tok":
        try:
            m = Mode("lex", LX.split_tokens(out, dom.re), src=out)
        except LX.LexError:
            return False
    else:
        m = Mode("sl" if dom.name == "text" else "plain", out)
    it = interp(g, m, FUEL)
    it.max_depth = MAX_DEPTH
    try:
        r = M.plain(it)
    except (M.Ill, M.OutOfFuel):
        return False
    return r[0] == "ok" and r[2] == len(m.stream)


def deep_case(src, rec, dom_name=None, depths=DEPTHS):
    """A Case with a deeply nested input (mode set), or None."""
    dom_name = dom_name or src.pick(("seq", "text", "tok"))
    dom = DOMS[dom_name](src)
    gen = Gen(src, dom, n_rules=0, max_depth=1,
              exclude=() if src.chance(20) else ("attempt",))

    def leaf():
        return gen.dom.leaf(src, True)

    def some():
        return leaf() if src.chance(80) else gen.node(True, False, 1)

    def wrap(n):
        k = src.below(24)
        if k == 0:
            return mk_un("fmap", n, ("tag", 1))
        if k == 1:
            return mk_un("label", n, "L")
        if k == 2:
            return mk_un("recover", n)
        if k == 3 and src.chance(30):
            return mk_un("attempt", n)
        if k == 4:
            return mk_un("recover_with", n, "rw", None)
        if k == 5:
            return mk_alt(n, N("satisfy", ("never",), False))
        if k == 6:
            return mk_alt(N("unexpected", ("x",), False), n)
        if k == 7:
            return mk_un("block", n)
        return n

    def ref(i):
        return N("ref", (i,), False, True)

    kind = src.pick(("paren", "mutual", "right", "prefix", "list", "sep",
                     "opt"))
    g = G(dom)
    h = [some() for _ in range(6)]
    o, c, x = h[0], h[1], h[2]
    levels = []     # (pieces before, pieces after) of one level
    if kind in ("paren", "mutual"):
        two = kind == "mutual"
        for i in range(1 + two):
            oi, ci, xi = (o, c, x) if i == 0 else (h[3], h[4], h[5])
            inner = wrap(ref(1 - i if two else 0))
            body = mk_between(oi, ci, inner) if src.chance(50) else mk_seq(
                "seq", mk_seq(src.pick(("seq", "seqr")), oi, inner), ci)
            g.rules.append(wrap(mk_alt(wrap(body), xi)))
            levels.append(([oi], [ci]))
    elif kind in ("right", "prefix"):
        body = mk_seq("seq" if kind == "right" else "seqr", o, wrap(ref(0)))
        g.rules.append(wrap(mk_alt(wrap(body), x)))
        levels.append(([o], []))
    elif kind == "opt":
        body = mk_seq("seq", o, mk_un("maybe", wrap(ref(0)), nullable=True))
        g.rules.append(wrap(body))
        levels.append(([o], []))
        x = o
    elif kind == "list":
        body = mk_between(o, c, mk_un("many", wrap(ref(0)), nullable=True))
        g.rules.append(wrap(mk_alt(wrap(body), x)))
        levels += [([o], [c]), ([o, x], [c]), ([o], [x, c])]
    else:
        s = h[3]
        body = mk_between(o, c, mk_rep("sep_by", wrap(ref(0)), s))
        g.rules.append(wrap(mk_alt(wrap(body), x)))
        levels += [([o], [c]), ([o, x, s], [c]), ([o], [s, x, c])]
    g.rule_nn = [True] * len(g.rules)
    g.start = ref(0) if src.chance(60) else mk_seq("seql", ref(0), some())
    tail = None if g.start.kind == "ref" else g.start.args[1]
    if src.chance(60):
        g.start = mk_seq("seql", g.start, N("eof", (), True))
    glue = "" if dom_name == "text" else " " if dom_name == "tok" else []

    def make(depth):
        before, after = [], []
        for i in range(depth):
            b, a = levels[i % 2] if kind == "mutual" else src.pick(levels)
            before += b
            after = a + after
        mid = [h[5] if kind == "mutual" and depth % 2 else x]
        out = None
        memo = {}
        for n in before + mid + after + ([tail] if tail else []):
            # two samples of each
            key = (id(n), src.below(2))
            if key not in memo:
                memo[key] = sample_of(dom, n, src)
            out = memo[key] if out is None else out + glue + memo[key]
        return out

    for _ in range(6):
        if accepts(g, make(3), dom):
            break
    else:
        rec.label("no valid sample")
        return None
    depth = src.rng_int(1, src.weighted(depths))
    out = make(depth)
    n = src.weighted([(4, 1), (4, 0), (2, 2)])
    if n:
        out = dom.mutate(src, out, n)
    case = Case(g, build(g).start)
    try:
        case.mode = gen_mode(src, g, 5 if src.chance(70) else None, out)
    except Discard:
        return None
    case.nesting = depth
    case.fuel = FUEL
    case.max_depth = MAX_DEPTH
    return case
