"""Every small grammar over a two-letter alphabet, and every short input."""
import itertools

from .grammar import G, N

LEAVES = (
    N("sym", ("a", None), False), N("sym", ("b", None), False),
)
LEAVES_X = LEAVES + (
    N("satisfy", (("in", ("a", "b")),), False), N("eof", (), True),
    N("pure", (0,), True), N("unexpected", ("u",), False),
)
UNARY = (
    lambda p: N("maybe", (p,), True), lambda p: N("many", (p,), True),
    lambda p: N("attempt", (p,), p.nullable),
    lambda p: N("label", (p, "L"), p.nullable),
    lambda p: N("recover", (p,), p.nullable),
    lambda p: N("recover_with", (p, "R", None), p.nullable),
)
BINARY = (
    lambda p, q: N("seq", (p, q), p.nullable and q.nullable),
    lambda p, q: N("alt", (p, q), p.nullable or q.nullable),
)


class _Dom:
    name = "seq"
    alpha = ("a", "b")
    junk = "~"
    chars = True


_MEMO = {}


def asts(size, leaves=LEAVES_X, sub=LEAVES):
    """All ASTs with exactly `size` nodes (extra leaves only at size 1-3)."""
    key = (size, len(leaves))
    if key in _MEMO:
        return _MEMO[key]
    if size == 1:
        r = list(leaves)
    else:
        r = []
        for p in asts(size - 1, leaves):
            for u in UNARY:
                r.append(u(p))
        for k in range(1, size - 1):
            for p in asts(k, leaves):
                for q in asts(size - 1 - k, leaves):
                    for b in BINARY:
                        r.append(b(p, q))
    _MEMO[key] = r
    return r


def grammars(max_size, full_size=3):
    """
    Every AST up to full_size with all leaves, up to max_size with a and b
    only; each without and with a final eof.
    """
    out = []
    for s in range(1, max_size + 1):
        for t in asts(s, LEAVES_X if s <= full_size else LEAVES):
            out.append((t, False))
            out.append((t, True))
    return out


def to_g(t, eof):
    g = G(_Dom)
    g.start = N("seql", (t, N("eof", (), True)), t.nullable) if eof else t
    return g


def inputs(max_len, alpha="ab~"):
    out = []
    for n in range(max_len + 1):
        for x in itertools.product(alpha, repeat=n):
            out.append("".join(x))
    return out
