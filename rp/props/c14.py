"""C14: sequence parsers are generic in the kind of stream and element."""
import array
from collections import UserList, deque
from collections.abc import Sequence

from ..common import Case, model_plain, model_recover, run_real
from ..engine import Discard
from ..grammar import (
    Gen, N, SeqDom, build, canon, gen_input, some_label
)
from ..real import Mode, expected_errors, unwrap
from .c12 import flags, outcome

RULE = (
    "'elements': random grammars over exotic alphabets (falsy, None, "
    "unhashable, cross-type-equal, objects with their own == and truth "
    "value, every stream element a distinct object) against the reference "
    "interpreter, identity of returned and inserted objects included; "
    "'containers': the same elements as list, tuple, str, bytes, bytearray, "
    "memoryview, array, range, deque, UserList and a minimal Sequence; "
    "'renaming': grammar and input consistently renamed to other elements; "
    "with and without recovery; non-trivial: the input is not empty and the "
    "grammar mentions at least one of its elements or fails on it"
)


class El:
    """An element known only by ==; each instance is told apart by uid."""

    __hash__ = None

    def __init__(self, key, uid, truth=True):
        self.key = key
        self.uid = uid
        self.truth = truth
        self.canon_key = (key, uid)

    def __eq__(self, other):
        same = type(other) is El and other.key == self.key != "odd"
        # == may answer with any object, which counts by its truth value
        return same if self.truth else (["same"] if same else 0)

    def __bool__(self):
        return self.truth

    def __len__(self):
        return 0

    def __repr__(self):
        return "<%s>" % self.key


class HashEl(El):
    """Equal elements with different hashes."""

    def __eq__(self, other):
        return type(other) is HashEl and other.key == self.key

    def __hash__(self):
        return self.uid


class Alpha(SeqDom):
    def __init__(self, alpha, junk):
        self.alpha = tuple(alpha)
        self.chars = False
        self.junk = junk

    def label(self, src):
        return some_label(src, (None, None, "L", "a thing", ""))


def els(truth):
    return [El(k, -1 - i, truth) for i, k in enumerate("abcd")]


NAN = float("nan")
FAMILIES = (
    # not equal to itself
    lambda: ([El("a", -1), El("odd", -2), El("b", -3)], El("odd", 0)),
    lambda: ([NAN, 0.0, "nan", -0.0], NAN),
    lambda: (els(True), El("junk", 0)),
    lambda: ([HashEl(k, -1 - i) for i, k in enumerate("abcd")],
             HashEl("junk", 0)),
    lambda: (els(False), El("junk", 0, False)),
    lambda: ([0, None, "", ()], False),
    lambda: ([None, False, "None", 0.5], None),
    lambda: ([1, True, 1.0, 2], 0),
    lambda: ([[], [0], {}, {"a": 1}], set()),
    lambda: ([b"", b"a", bytearray(b"a"), ""], b"b"),
    lambda: ([frozenset(), frozenset("a"), (), ("a", [])], Ellipsis),
    lambda: (["ab", "a", "", "abc"], "b"),
    lambda: ([Exception, int, str, len], type),
    lambda: ([ValueError, (1, [2]), {1: None}, 3 + 0j], "j"),
)


def clone(el, uid):
    if isinstance(el, El):
        return type(el)(el.key, uid, el.truth)
    if type(el) in (list, dict, set, bytearray):
        return type(el)(el)
    return el


def element_part(src, rec):
    alpha, junk = src.pick(FAMILIES)()
    n = src.rng_int(2, len(alpha))
    g = Gen(src, Alpha(alpha[:n], junk)).grammar()
    parser = build(g).start
    for _ in range(3):
        c = Case(g, parser)
        stream = [clone(x, i + 1) for i, x in enumerate(gen_input(g, src))]
        c.mode = Mode("plain", stream, src.pick((5, 1, 0, 2)))
        for recover in (False, True):
            try:
                want = (model_recover if recover else model_plain)(c)
            except Discard:
                rec.label("too big")
                continue
            res, exc = run_real(c, recover)
            if want[0] == "ill":
                if exc is None or exc[0] != "RuntimeError":
                    c.fail("repetition over an empty match: got %r" % (exc,),
                           recover=recover)
                continue
            if exc is not None:
                c.fail("parse raised %s: %s" % exc, recover=recover)
            out = unwrap(res)
            if want[0] == "ok":
                good = out == ("ok", want[1])
            else:
                good = out[0] == "err" and \
                    out[1] == expected_errors(c.mode, want[2])
            if good and want[0] == "rec":
                out = unwrap(res, True)
                good = out == ("ok", want[1])
            if not good:
                c.fail("wrong outcome", recover=recover, got=repr(out),
                       want=repr(want))
            rec.label("elements %s" % want[0])
            rec.case("%s|%s" % (recover, c.key()), len(stream) > 0,
                     lambda: c.desc(recover=recover, outcome=repr(out)[:300]))


# -------------------------------------------------------------- containers


class Seq(Sequence):
    def __init__(self, xs):
        self._xs = tuple(xs)

    def __len__(self):
        return len(self._xs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Seq(self._xs[i])
        return self._xs[i]

    def __repr__(self):
        return "Seq%r" % (self._xs,)


ANY = (tuple, deque, UserList, Seq, Seq)
CHARS = ("".join,)
INTS = (bytes, bytearray, lambda xs: memoryview(bytes(xs)),
        lambda xs: array.array("b", xs))


def as_range(xs):
    if len(xs) < 2:
        return range(xs[0], xs[0] + 1) if xs else range(0)
    st = xs[1] - xs[0]
    r = range(xs[0], xs[-1] + (1 if st > 0 else -1), st) if st else None
    return r if r is not None and list(r) == list(xs) else None


def container_part(src, rec):
    fam = src.pick(("ints", "chars", "mixed"))
    if fam == "ints":
        dom = Alpha((0, 1, 2, 3), 7)
        cs = ANY + INTS
    elif fam == "chars":
        dom = SeqDom(src, True)
        cs = ANY + CHARS + CHARS
    else:
        dom = Alpha((None, "", 0, "ab"), ())
        cs = ANY
    g = Gen(src, dom).grammar()
    parser = build(g).start
    for _ in range(3):
        inp = gen_input(g, src)
        if src.below(60) == 0:
            inp = list(inp) * src.pick((10, 60, 300, 1000))
        if fam == "ints" and src.chance(25):
            inp = list(range(src.below(4), src.below(5), src.pick((1, 2))))
        c = Case(g, parser)
        mi = src.pick((5, 1, 0))
        c.mode = Mode("plain", list(inp), mi)
        for recover in flags(c, rec):
            a = outcome(parser, c.mode, recover)
            for k in range(2):
                mk = src.pick(cs)
                st = mk(inp)
                if fam == "ints" and as_range(inp) is not None and \
                        src.chance(50):
                    st = as_range(inp)
                m = Mode("plain", st, mi)
                b = outcome(parser, m, recover)
                if a != b:
                    c.fail("outcome depends on the container",
                           container="%s: %r" % (type(st).__name__, st),
                           recover=recover, as_list=repr(a), got=repr(b))
                rec.label("container " + type(st).__name__)
                rec.case("%s|%s|%s" % (recover, type(st), c.key()),
                         len(inp) > 0,
                         lambda: c.desc(recover=recover, container=repr(st),
                                        outcome=repr(a)[:300]))


# ---------------------------------------------------------------- renaming


TARGETS = (
    [None, 0, "", (), 2.5, "xyz", frozenset(), -1],
    [[], {}, [[]], "q", 0.0, None, b"", ((),)],
    [1, "1", b"1", (1,), [1], {1: 1}, 1.5, "one"],
    list("hijklmno"),
    [3, 1, 4, 15, 9, 2, 6, 5],
)


def renaming_part(src, rec):
    from reparsec.sequence import satisfy, sym
    base = tuple("bcd,;")[:src.rng_int(2, 5)]
    g = Gen(src, Alpha(base, "~"), exclude=("bind",)).grammar()
    objs = list(src.pick(TARGETS))
    k = src.below(len(objs))
    objs = objs[k:] + objs[:k]
    table = list(zip(base + ("~",), objs))

    def ren(x):
        for a, b in table:
            if a == x:
                return b
        raise AssertionError(x)

    def r_sym(n, go):
        if n.args[1] is None:
            return sym(ren(n.args[0]))
        return sym(ren(n.args[0]), n.args[1])

    def r_satisfy(n, go):
        xs = [ren(x) for x in n.args[0][1]]
        return satisfy(lambda t: any(t == x for x in xs))

    p = build(g).start
    q = build(g, override={"sym": r_sym, "satisfy": r_satisfy}).start
    values = {canon(a): canon(b) for a, b in table}
    labels = {repr(a): repr(b) for a, b in table}

    def rv(v):
        if v in values:
            return values[v]
        if isinstance(v, tuple) and v and v[0] in ("L", "T"):
            return (v[0],) + tuple(rv(x) for x in v[1:])
        if isinstance(v, tuple) and v and v[0] == "fn":
            return (v[0], rv(v[1]))
        return v

    def rl(s):
        return labels.get(s, s)

    def ro(o):
        if o[0] == "ok":
            return ("ok", rv(o[1]))
        if o[0] == "err":
            return ("err", [
                (loc, ls, tuple(rl(x) for x in ex),
                 (op[0], rl(op[1])) if op and op[0] == "ins" else op)
                for loc, ls, ex, op in o[1]])
        return o

    for _ in range(3):
        c = Case(g, p)
        c.mode = Mode("plain", gen_input(g, src), src.pick((5, 2, 0)))
        m = Mode("plain", [ren(x) for x in c.mode.stream], c.mode.max_ins)
        for recover in flags(c, rec):
            a = outcome(p, c.mode, recover)
            b = outcome(q, m, recover)
            if a[0] != "exc":
                a = tuple(ro(x) for x in a)
            if b[0] != "exc":
                b = tuple(x[:2] for x in b)
            if a != b:
                c.fail("renaming the elements changes the outcome",
                       renaming=repr(table), recover=recover,
                       original_renamed=repr(a), got=repr(b))
            rec.label("renaming %s" % a[0][0])
            rec.case("%s|%s|%r" % (recover, c.key(), table),
                     len(c.mode.stream) > 0,
                     lambda: c.desc(recover=recover, renaming=repr(table)))


def parts(tier):
    k = 6 if tier == "quick" else 80
    return [
        ("elements", element_part, 7000 * k),
        ("containers", container_part, 5000 * k),
        ("renaming", renaming_part, 5000 * k),
    ]
