"""C20: user functions are called on what was parsed, and on nothing else."""
from collections import Counter

from .. import model as M
from ..common import Case, gen_grammar, gen_mode
from ..engine import Discard, Violation
from ..grammar import (
    Op, bind_key, build, canon, fmap_fn, kinds, pred_fn, rwf_value, show,
    walk
)
from ..real import interp, real_parse, unwrap
from ..wide import wide_case

RULE = (
    "a case is a random grammar rich in fmap, bind, apply, PureFn, satisfy, "
    "operator chains and recover_with_fn (often with an fmap around every "
    "part), and one input, parsed with and "
    "without recovery, with every call of a user function recorded "
    "(function, canonical arguments) on both sides; compared with the calls "
    "the reference interpreter makes: equal in order in plain mode, nothing "
    "foreign in recovery, none during unwrap(); non-trivial: at least three "
    "calls were recorded"
    "; also wide grammars: up to 60 alternatives, optional parts, parts in "
    "a row, or combinators on top of each other"
)

class LogInterp(M.Interp):
    """The reference interpreter, noting the calls of user functions."""

    def note(self, kind, n, *args):
        self.calls.append((kind, id(n)) + args)

    def logged(self, n):
        f = fmap_fn(n.args[1])

        def fn(v):
            self.note("fmap", n, canon(v))
            return f(v)
        return fn

    def logged_tuple(self, n):
        f = M.tuple_fn(n)

        def fn(v):
            r = f(v)
            self.note("apply", n, canon(r[1:]))
            return r
        return fn

    def logged_chain(self, n):
        def op(o, x, y):
            self.ops.append(("op", id(n), canon(o), canon(x), canon(y)))
            return Op(o)(x, y)

        def left(v):
            acc = v[0]
            for o, x in v[1]:
                acc = op(o, acc, x)
            return acc

        def right(v):
            first, tail = v
            if not tail:
                return first
            args = [first] + [x for _, x in tail]
            acc = args[-1]
            for (o, _), x in zip(reversed(tail), reversed(args[:-1])):
                acc = op(o, x, acc)
            return acc
        return left if n.kind == "chainl1" else right

    def pick(self, table):
        def fn(v):
            self.calls.append(("bind", id(table), canon(v)))
            return table[bind_key(canon(v), len(table))]
        return fn

    def term(self, n, p):
        if n.kind == "satisfy" and p < self.n:
            self.tests.add((id(n), canon(self.s[p])))
        return M.Interp.term(self, n, p)

    def F(self, n, p, mark):
        r = M.Interp.F(self, n, p, mark)
        if id(n) in self.taps and type(r) is M.Ok:
            self.note("tap", n, canon(r.v))
        return r

    def R(self, n, p, mark, ins, rem):
        r = M.Interp.R(self, n, p, mark, ins, rem)
        if id(n) in self.taps:
            if type(r) is M.Ok:
                self.note("tap", n, canon(r.v))
            elif type(r) is M.Rec:
                for x in r.reps:
                    self.note("tap", n, canon(x.v))
        return r

    def F_(self, n, p, mark):
        k = n.kind
        if k == "fmap":
            return self.fmapr(self.F(n.args[0], p, mark), self.logged(n))
        if k == "tuple" and n.args[1]:
            return self.fmapr(self.F(M.tuple_tree(n), p, mark),
                              self.logged_tuple(n))
        if k == "purefn":
            self.note("purefn", n)
        if k in ("chainl1", "chainr1"):
            x = self.F(M.DERIVED[k](n)[0], p, mark)
            if type(x) is M.Er:
                self.chain_failed = True
            return self.fmapr(x, self.logged_chain(n))
        return M.Interp.F_(self, n, p, mark)

    def R_(self, n, p, mark, ins, rem):
        k = n.kind
        if k == "fmap":
            return M.rmap(self.R(n.args[0], p, mark, ins, rem),
                          self.logged(n))
        if k == "tuple" and n.args[1]:
            return M.rmap(self.R(M.tuple_tree(n), p, mark, ins, rem),
                          self.logged_tuple(n))
        if k == "recover_with_fn":
            def value():
                self.note("recover_with_fn", n, p)
                return rwf_value(n.args[1], self.n, p)
            return self.ruser(
                self.R(n.args[0], p, mark, ins, rem), p, rem, value,
                lambda v: repr(v) if n.args[2] is None else n.args[2])
        return M.Interp.R_(self, n, p, mark, ins, rem)


def reference(case, taps, recover):
    base = interp(case.g, case.mode, case.fuel or 12000)
    it = LogInterp(case.g, base.s, base.col, case.fuel or 12000, base.tok_cls,
                   base.tok_loc)
    it.taps = taps
    it.calls = []
    it.ops = []
    it.tests = set()
    it.chain_failed = False
    try:
        want = M.recovering(it, case.mode.max_ins) if recover \
            else M.plain(it)
    except M.Ill:
        want = ("ill",)
    except M.OutOfFuel:
        raise Discard("reference run too big")
    return want[0], it


class Recorder:
    """Builds a grammar's parser with every user function recorded."""

    def __init__(self, g, taps):
        self.calls = []
        self.ops = []
        self.tests = []
        self.streams = []
        self.taps = taps
        self.parser = build(g, wrap=self.tap if taps else None, override={
            "fmap": self.fmap, "bind": self.bind, "tuple": self.tuple,
            "purefn": self.purefn, "satisfy": self.satisfy,
            "recover_with_fn": self.recover_with_fn,
            "chainl1": self.chain, "chainr1": self.chain,
        }).start

    def clear(self):
        for x in (self.calls, self.ops, self.tests, self.streams):
            del x[:]

    def tap(self, n, parser):
        """The same parser, its values recorded on the way."""
        if id(n) not in self.taps:
            return parser

        def fn(v):
            self.calls.append(("tap", id(n), canon(v)))
            return v
        return parser.fmap(fn)

    def fmap(self, n, go):
        import reparsec as R
        f = fmap_fn(n.args[1])

        def fn(*args):
            self.calls.append(("fmap", id(n)) + tuple(map(canon, args)))
            return f(*args)
        x = go(n.args[0])
        return R.fmap(x, fn) if n.sp == 1 else x.fmap(fn)

    def bind(self, n, go):
        import reparsec as R
        table = n.args[1]
        ps = [go(t) for t in table]

        def fn(*args):
            self.calls.append(("bind", id(table)) + tuple(map(canon, args)))
            return ps[bind_key(canon(args[0]), len(ps))]
        x = go(n.args[0])
        return R.bind(x, fn) if n.sp == 1 else x.bind(fn)

    def tuple(self, n, go):
        import reparsec as R
        ps = [go(p) for p in n.args[0]]
        r = ps[0]
        if not isinstance(r, R.TupleParser):
            r = r.fmap(lambda v: v)
        for p in ps[1:]:
            r = r.then(p)

        def fn(*args):
            self.calls.append(("apply", id(n), canon(args)))
            return ("ap",) + args
        return r.apply(fn) if n.args[1] else r

    def purefn(self, n, go):
        from reparsec.primitive import PureFn

        def fn():
            self.calls.append(("purefn", id(n)))
            return ["pf", n.args[0]]
        return PureFn(fn)

    def satisfy(self, n, go):
        from reparsec.sequence import satisfy
        spec = n.args[0]
        f = (lambda t: t.value == spec[1]) \
            if spec[0] == "val" and not isinstance(spec, str) \
            else pred_fn(spec)

        def fn(*args):
            self.tests.append((id(n), args))
            return f(*args)
        return satisfy(fn)

    def recover_with_fn(self, n, go):
        import reparsec as R
        x = go(n.args[0])

        def fn(*args):
            self.streams.append(args[0])
            self.calls.append(("recover_with_fn", id(n)) + args[1:])
            return rwf_value(n.args[1], len(args[0]), args[1])
        if n.args[2] is None:
            return R.recover_with_fn(x, fn) if n.sp == 1 \
                else x.recover_with_fn(fn)
        return R.recover_with_fn(x, fn, n.args[2]) if n.sp == 1 \
            else x.recover_with_fn(fn, label=n.args[2])

    def chain(self, n, go):
        import reparsec as R
        ops = self.ops

        class LogOp(Op):
            __slots__ = ()

            def __call__(self, *args):
                ops.append(("op", id(n), self._canon) +
                           tuple(map(canon, args)))
                return Op.__call__(self, *args)
        x = go(n.args[0])
        o = go(n.args[1]).fmap(LogOp)
        return getattr(R, n.kind)(x, o) if n.sp == 1 \
            else getattr(x, n.kind)(o)


def named(n_of, call):
    return "%s of %s: %r" % (call[0], n_of(call[1]), call[2:])


def node_names(g):
    names = {}
    for n in walk(g):
        names[id(n)] = show(n)
        if n.kind == "bind":
            names[id(n.args[1])] = show(n)
    return lambda i: names.get(i, "?")[:300]


def check(case, real, rec):
    name = node_names(case.g)
    fast = reference(case, real.taps, False)
    for recover in (False, True):
        want, it = fast if not recover else reference(
            case, real.taps, True)
        real.clear()
        res, exc = real_parse(case.parser, case.mode, recover)
        if want == "ill":
            continue        # C01, C17
        if exc is not None:
            case.fail("parse(recover=%s) raised %s: %s" % (
                (recover,) + exc))
        calls = list(real.calls)
        ops = list(real.ops)
        tests = list(real.tests)
        for s in real.streams:
            if s is not case.mode.stream:
                case.fail("recover_with_fn was not given the stream",
                          got=repr(s)[:300])
        for i, args in tests:
            if len(args) != 1:
                case.fail("a predicate was called with %d arguments" %
                          len(args), predicate=name(i))
            if type(case.mode.stream) is list and \
                    not any(args[0] is e for e in case.mode.stream):
                case.fail("a predicate was called with something that is "
                          "not an element of the stream",
                          predicate=name(i), got=repr(args[0]))
        tests = set((i, canon(args[0])) for i, args in tests)
        allowed = it.tests | fast[1].tests
        for t in sorted(tests - allowed, key=repr):
            case.fail("a predicate was called with an element at which its "
                      "parser is not tried", recover=recover,
                      predicate=name(t[0]), got=repr(t[1]))
        if not recover:
            if calls != it.calls:
                i = 0
                while i < len(calls) and i < len(it.calls) and \
                        calls[i] == it.calls[i]:
                    i += 1
                case.fail(
                    "calls of user functions differ in a plain parse",
                    at=i,
                    got=named(name, calls[i]) if i < len(calls)
                    else "no more calls",
                    want=named(name, it.calls[i]) if i < len(it.calls)
                    else "no more calls")
            if not it.chain_failed and Counter(ops) != Counter(it.ops):
                x = list((Counter(ops) - Counter(it.ops)).elements())
                y = list((Counter(it.ops) - Counter(ops)).elements())
                case.fail(
                    "calls of operators differ in a plain parse",
                    extra=[named(name, c) for c in x[:3]],
                    missing=[named(name, c) for c in y[:3]])
        else:
            allowed = set(it.calls) | set(fast[1].calls)
            for c in calls:
                if c not in allowed:
                    case.fail(
                        "a user function was called with something that was "
                        "not parsed there", got=named(name, c))
            if want == "ok":
                x = list((Counter(calls) - Counter(fast[1].calls)).elements())
                y = list((Counter(fast[1].calls) - Counter(calls)).elements())
                if not it.chain_failed:
                    x += (Counter(ops) - Counter(fast[1].ops)).elements()
                    y += (Counter(fast[1].ops) - Counter(ops)).elements()
                if x or y:
                    case.fail(
                        "with recovery on, calls of user functions differ "
                        "from the plain parse of this valid input",
                        extra=[named(name, c) for c in x[:3]],
                        missing=[named(name, c) for c in y[:3]])
        real.clear()
        for un in (False, True, False):
            unwrap(res, un)
        if real.calls or real.ops or real.tests:
            case.fail("unwrap() called a user function", recover=recover,
                      got=repr((real.calls + real.ops + real.tests)[:3]))
        rec.label("%s %s" % ("recovering" if recover else "plain", want))
        rec.case("%s|%s" % (recover, case.key()),
                 len(calls) + len(ops) + len(tests) >= 3,
                 lambda: case.desc(recover=recover, calls=len(calls),
                                   operators=len(ops), tests=len(tests)))


BOOST = {"fmap": 4, "bind": 3, "purefn": 3, "satisfy": 3, "tuple": 2,
         "recover_with_fn": 3, "chainl1": 2, "chainr1": 2}
RICH = frozenset(BOOST)


def random_part(dom):
    def part(src, rec):
        g = gen_grammar(src, dom, boost=BOOST)
        taps = ()
        if src.chance(60):
            # fmap around every one or some of the nodes
            how = src.pick((100, 40, 15))
            taps = frozenset(id(n) for n in walk(g) if src.chance(how))
        if not taps and not kinds(g) & RICH:
            rec.label("no user function")
            return
        real = Recorder(g, taps)
        for _ in range(4):
            c = Case(g, real.parser)
            try:
                c.mode = gen_mode(src, g)
            except Discard:
                continue
            try:
                check(c, real, rec)
            except Discard:
                rec.label("too big")
    return part


def wide_part(src, rec):
    c = wide_case(src, rec)
    if c is None:
        return
    taps = frozenset(id(n) for n in walk(c.g) if src.chance(70))
    real = Recorder(c.g, taps)
    c.parser = real.parser
    check(c, real, rec)


def huge_part(src, rec):
    """The calls on inputs of 10^4 to 10^5 elements, known by construction."""
    from reparsec.sequence import satisfy, sym
    calls = []

    def note(name):
        def fn(*args):
            calls.append((name,) + args)
            return args[-1]
        return fn
    n = src.rng_int(5000, 60000)
    kind = src.pick(("many", "sep_by", "chainl1", "chainr1", "bind"))
    elem = src.pick(("sym", "satisfy", "alt", "seq"))
    pre = ()
    if elem == "sym":
        p, piece = sym("a"), "a"
    elif elem == "satisfy":
        p, piece = satisfy(lambda x: x == "a"), "a"
    elif elem == "alt":
        p, piece = sym("b").fmap(note("b")) | sym("a"), "a"
    else:
        p, piece = sym("x").fmap(note("x")).seqr(sym("a")), "xa"
        pre = (("x", "x"),)
    p = p.fmap(note("f"))
    one = list(pre) + [("f", "a")]
    if kind == "bind":
        from reparsec.primitive import Pure

        def cont(v):
            calls.append(("k", v))
            return Pure(v)
        p = p.bind(cont)
        one.append(("k", "a"))
    if kind in ("many", "bind"):
        p = p.many()
        inp = piece * n
        want = one * n
    else:
        sep = sym(",").fmap(note("s"))
        inp = piece + ("," + piece) * (n - 1)
        want = one + ([("s", ",")] + one) * (n - 1)
        if kind == "sep_by":
            p = p.sep_by(sep)
        else:
            op = sep.fmap(lambda _: lambda a, b: calls.append(("o", a, b)) or
                          "v")
            if kind == "chainl1":
                p = p.chainl1(op)
                want = want + [("o", "a", "a")] + [("o", "v", "a")] * (n - 2)
            else:
                p = p.chainr1(op)
                want = want + [("o", "a", "a")] + [("o", "a", "v")] * (n - 2)
    inp = list(inp) if src.chance(50) else inp
    recover = src.chance(40)
    if src.chance(20):
        p = p.label("L")
    desc = dict(kind=kind, item=elem, elements=len(inp), recover=recover)
    res = p.parse(inp, recover)
    done = len(calls)
    try:
        res.unwrap()
    except Exception as e:
        raise Violation("%s: %s" % (type(e).__name__, str(e)[:200]), desc)
    if len(calls) != done:
        raise Violation("calls during unwrap()", desc)
    good = Counter(calls) == Counter(want) if recover or kind[:5] == "chain" \
        else calls == want
    if not good:
        i = 0
        while i < min(len(calls), len(want)) and calls[i] == want[i]:
            i += 1
        raise Violation("wrong calls on a long input", dict(
            desc, index=i, got=repr(calls[i:i + 3]), want=repr(want[i:i + 3]),
            counts=(len(calls), len(want))))
    rec.label("huge " + kind)
    rec.case("huge|%r" % sorted(desc.items()), True, desc)


huge_part.may_be_slow = 8.0


def parts(tier):
    k = 6 if tier == "quick" else 80
    return [
        ("sequences", random_part("seq"), 4000 * k),
        ("text", random_part("text"), 3000 * k),
        ("wide", wide_part, 500 * k),
        ("huge", huge_part, 10 * k),
        ("tokens", random_part("tok"), 3000 * k),
    ]
