"""C18: ParseResult.fmap transforms the value and nothing else."""
from ..common import case_inputs, gen_grammar
from ..engine import Violation
from ..grammar import canon, show
from ..real import ParseError, err_tuples, real_parse
from .c12 import flags

RULE = (
    "random grammars, inputs and modes; from each parse result a random "
    "tree of results is grown by fmap with random functions, with unwraps "
    "(with and without recovery) interleaved in random order; every unwrap "
    "of every result, old or new, is compared with the functions applied to "
    "what the root gave at first, and with the parser carrying the same "
    "functions by Parser.fmap; non-trivial: the root failed or was "
    "repaired, or at least two fmaps were chained"
)


class Box:
    """An opaque value that compares by identity only."""

    def __init__(self, v):
        self.canon_key = ("box", canon(v))


FNS = (
    ("tag", lambda v: ("f", v)),
    ("tag2", lambda v: ("g", v)),
    ("list", lambda v: [v]),
    ("none", lambda v: None),
    ("const", lambda v: 7),
    ("false", lambda v: False),
    ("repr", lambda v: repr(canon(v))),
    ("callable", lambda v: Box(v)),
    ("id", lambda v: v),
    ("pair", lambda v: (v, v)),
    ("empty", lambda v: ()),
    ("exc", lambda v: ("exception", type(ValueError(v)).__name__)),
)


def raw(res, recover):
    """('ok', raw value) | ('err', items, text)"""
    try:
        v = res.unwrap(recover) if recover else res.unwrap()
    except ParseError as e:
        return ("err", err_tuples(e), str(e), [x.msg for x in e.errors])
    except Exception as e:
        raise Violation("unwrap raised %s: %s" % (type(e).__name__, e))
    return ("ok", v)


def through(out, chain):
    if out[0] != "ok":
        return out
    v = out[1]
    for _, f in chain:
        v = f(v)
    return ("ok", v)


def comparable(out):
    return ("ok", canon(out[1])) if out[0] == "ok" else out


def part(src, rec):
    g = gen_grammar(src)
    for c in case_inputs(src, g, 3):
        for recover in flags(c, rec):
            res, exc = real_parse(c.parser, c.mode, recover)
            if exc is not None:
                continue
            base = {u: raw(res, u) for u in (False, True)}
            tree = [(res, ())]
            log = []
            kw = dict(recover=recover)
            longest = 0

            def check(i, u):
                r, chain = tree[i]
                got = comparable(raw(r, u))
                want = comparable(through(base[u], chain))
                log.append("r%d.unwrap(%s)" % (i, u))
                if got != want:
                    c.fail("fmap changed the outcome", history=list(log),
                           got=repr(got), want=repr(want), **kw)

            for _ in range(src.rng_int(2, 8)):
                if src.chance(2):
                    # a long chain
                    name, f = FNS[src.pick((0, 4, 8))]
                    n = src.rng_int(10, src.pick((60,) * 15 + (400,)))
                    log.append("r%d = ...fmap(%s) * %d" % (
                        len(tree) - 1 + n, name, n))
                    for _ in range(n):
                        r, chain = tree[-1]
                        tree.append((r.fmap(f), chain + ((name, f),)))
                    longest = max(longest, n)
                elif src.chance(60):
                    i = src.below(len(tree)) if src.chance(60) \
                        else len(tree) - 1
                    name, f = src.pick(FNS)
                    r, chain = tree[i]
                    log.append("r%d = r%d.fmap(%s)" % (len(tree), i, name))
                    try:
                        q = r.fmap(f)
                    except Exception as e:
                        c.fail("fmap raised %s: %s" % (
                            type(e).__name__, e), history=list(log), **kw)
                    tree.append((q, chain + ((name, f),)))
                    longest = max(longest, len(chain) + 1)
                else:
                    check(src.below(len(tree)), src.chance(50))
            order = list(range(len(tree)))
            for i in order:
                for u in (False, True):
                    check(i, u)
            # the parser-level counterpart
            _, chain = tree[-1] if src.below(2) else src.pick(tree)
            p = c.parser
            for _, f in chain:
                p = p.fmap(f)
            res2, exc2 = real_parse(p, c.mode, recover)
            if exc2 is not None:
                c.fail("p.fmap(...).parse raised %s: %s" % exc2,
                       chain=[n for n, _ in chain], **kw)
            for u in (False, True):
                got = comparable(raw(res2, u))
                want = comparable(through(base[u], chain))
                if got != want:
                    c.fail("p.fmap(f).parse(x) is not p.parse(x).fmap(f)",
                           chain=[n for n, _ in chain], unwrap=u,
                           got=repr(got), want=repr(want), **kw)
            kind = "ok" if base[False][0] == "ok" else (
                "repaired" if base[True][0] == "ok" else "failed")
            rec.label("%s recover=%s" % (kind, recover))
            rec.case("%s|%s|%s" % (recover, log, c.key()),
                     kind != "ok" or longest >= 2,
                     lambda: c.desc(history=list(log), root=kind, **kw))


def parts(tier):
    k = 6 if tier == "quick" else 80
    return [("fmap", part, 12000 * k)]
