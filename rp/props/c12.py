"""C12: Delay behaves as the parser it is defined to be."""
from ..common import (
    Case, case_inputs, gen_grammar, gen_mode, model_plain, model_recover
)
from ..deep import deep_case
from ..engine import Discard, Violation
from ..grammar import G, N, build, builder, kinds, mk_seq, mk_un, walk
from ..long import long_case
from ..model import Undef
from ..real import expected_errors, real_parse, unwrap

RULE = (
    "'wrapped': the same grammar with random sub-parsers replaced by Delays "
    "(defined at once, at the end, or through a chain of Delays) against the "
    "Delay-free parser; 'unrolled': recursive grammars against the same "
    "grammar unrolled into distinct parsers without any Delay; 'protocol': "
    "random sequences of creating, using, defining, redefining and parsing "
    "Delays against a model of what is defined when; all in plain and "
    "recovery mode; non-trivial: a Delay was reached by the parse (wrapped "
    "below the root, recursion used, or undefined and reached)"
    "; also long flat and deeply nested inputs; 'callback': Delays defined, "
    "or made and defined anew for every use, by user functions in the middle "
    "of a parse"
)


def outcome(parser, mode, recover):
    res, exc = real_parse(parser, mode, recover)
    if exc is not None:
        return ("exc",) + exc
    return (unwrap(res), unwrap(res, True))


def flags(c, rec):
    """The values of `recover` whose parse is small (by the reference)."""
    try:
        model_plain(c, 8000)
    except Discard:
        rec.label("parse too big")
        return ()
    try:
        model_recover(c, 8000)
    except Discard:
        rec.label("recovery too big")
        return (False,)
    return (False, True)


def same(c, a, b, recover, rec, what, nt, **kw):
    if a != b:
        c.fail("%s differs" % what, recover=recover, direct=repr(a),
               delayed=repr(b), **kw)
    rec.label("%s %s %s" % (what, recover, a[0] if a[0] == "exc"
                            else a[0][0]))
    rec.case("%s|%s|%s|%s" % (what, recover, c.key(), kw), nt,
             lambda: c.desc(recover=recover, outcome=repr(a)[:300], **kw))


def wrapped_part(src, rec):
    import reparsec as R
    long = long_case(src, rec, many_errors=src.chance(20)) \
        if src.chance(2) else None
    g = gen_grammar(src) if long is None else long.g
    late = []
    names = []
    pct = src.pick((25, 50, 90, 8))

    def wrap(n, p):
        if not src.chance(pct):
            return p
        k = src.below(4) if not src.chance(4) else 4
        d = R.Delay()
        names.append(n.kind)
        if k == 0:
            d.define(p)
        elif k == 1:
            late.append((d, p))
        elif k == 2:
            e = R.Delay()
            late.append((e, p))
            if src.below(2):
                d.define(e)
            else:
                late.append((d, e))
        elif k == 4:
            # a chain of them
            late.append((d, p))
            for _ in range(src.rng_int(2, 30)):
                e = R.Delay()
                late.append((e, d))
                d = e
        else:
            e = R.Delay()
            e.define(p)
            late.append((d, e))
        return d
    q = build(g, wrap=wrap).start
    while late:
        d, p = late.pop(src.below(len(late)))
        d.define(p)
    for c in case_inputs(src, g, 3) if long is None else [long]:
        for recover in flags(c, rec):
            a = outcome(c.parser, c.mode, recover)
            b = outcome(q, c.mode, recover)
            same(c, a, b, recover, rec, "wrapped", bool(names),
                 delayed_kinds=tuple(names))


class Bottom(Exception):
    pass


def unrolled_part(src, rec):
    from reparsec.primitive import PureFn
    for _ in range(6):
        g = gen_grammar(src, n_rules=src.rng_int(1, 2))
        if "ref" in kinds(g):
            break
    else:
        return

    def bottom():
        raise Bottom
    refs = [PureFn(bottom)] * len(g.rules)
    depth = src.pick((6, 10, 14))
    for _ in range(depth):
        b = builder(g, refs=refs)
        refs = [b.node(r) for r in g.rules]
    flat = builder(g, refs=refs).node(g.start)
    for c in case_inputs(src, g, 3):
        for recover in flags(c, rec):
            try:
                res = c.mode.parse(flat, recover)
                a = (unwrap(res), unwrap(res, True))
            except Bottom:
                rec.label("deeper than the unrolling")
                continue
            except Exception as e:
                a = ("exc", type(e).__name__, str(e)[:200])
            b = outcome(c.parser, c.mode, recover)
            same(c, a, b, recover, rec, "unrolled", len(c.mode.stream) > 1)


def callback_part(src, rec):
    """Delays made and defined by user functions in the middle of a parse."""
    import reparsec as R
    from reparsec.primitive import Pure
    for _ in range(6):
        g = gen_grammar(src, n_rules=src.rng_int(1, 3))
        if "ref" in kinds(g):
            break
    else:
        return
    kind = src.pick(("fmap", "bind", "fresh"))
    twice = src.chance(30)

    def make():
        delays = [R.Delay() for _ in g.rules]
        if kind == "fresh":
            # every use of a rule is a Delay of its own
            def use(d):
                def fresh(_):
                    e = R.Delay()
                    if twice:
                        f = R.Delay()
                        e.define(f)
                        f.define(d)
                    else:
                        e.define(d)
                    return e
                return Pure(None).bind(fresh)
            b = builder(g, refs=[use(d) for d in delays])
            for d, r in zip(delays, g.rules):
                d.define(b.node(r))
            return b.node(g.start)
        b = builder(g, refs=delays)
        bodies = [b.node(r) for r in g.rules]
        start = b.node(g.start)
        done = []

        def define(x):
            if not done:
                done.append(x)
                for d, p in zip(delays, bodies):
                    d.define(p)
            return x
        if kind == "fmap":
            return Pure(None).fmap(define).seqr(start)

        def cont(x):
            define(x)
            return start
        return Pure(None).bind(cont)
    for c in case_inputs(src, g, 3):
        for recover in flags(c, rec):
            q = make()
            for _ in range(1 + twice):
                a = outcome(c.parser, c.mode, recover)
                b = outcome(q, c.mode, recover)
                same(c, a, b, recover, rec, "in a callback",
                     len(c.mode.stream) > 0, kind=kind)


def deep_part(src, rec):
    """Recursion far down against a parser without any Delay."""
    c = deep_case(src, rec)
    if c is None:
        return
    g = c.g
    depth = c.nesting + 4

    def bottom():
        raise Bottom
    from reparsec.primitive import PureFn
    refs = [PureFn(bottom)] * len(g.rules)
    for _ in range(depth):
        b = builder(g, refs=refs)
        refs = [b.node(r) for r in g.rules]
    flat = builder(g, refs=refs).node(g.start)
    for recover in flags(c, rec):
        try:
            res = c.mode.parse(flat, recover)
            a = (unwrap(res), unwrap(res, True))
        except Bottom:
            rec.label("deeper than the unrolling")
            continue
        except Exception as e:
            a = ("exc", type(e).__name__, str(e)[:200])
        b = outcome(c.parser, c.mode, recover)
        same(c, a, b, recover, rec, "deep", len(c.mode.stream) > 1)


class Machine:
    def __init__(self, src, rec):
        import reparsec as R
        self.src = src
        self.rec = rec
        g0 = gen_grammar(src, n_rules=src.rng_int(1, 3), eof=False)
        self.bodies = list(g0.rules)
        n = len(self.bodies)
        # Delays defined as other Delays
        for i in range(n - 1):
            if src.chance(20) and g0.rule_nn[i + 1] == g0.rule_nn[i]:
                self.bodies[i] = N("ref", (i + 1,), not g0.rule_nn[i], True)
        self.rule_nn = g0.rule_nn
        self.dom = g0.dom
        self.start = g0.start
        self.delays = [R.Delay() for _ in self.bodies]
        self.defined = [None] * n
        self.log = []
        self.bt = self.new_builder()
        g0.rules = self.bodies
        self.g0 = g0
        self.pool = [x for x in walk(g0)]
        # parsers: (node, parser)
        self.parsers = [
            (N("ref", (i,), not self.rule_nn[i], True), d)
            for i, d in enumerate(self.delays)]

    def new_builder(self):
        return builder(self.cur(None), refs=self.delays)

    def cur(self, start):
        g = G(self.dom)
        g.rules = list(self.defined)
        g.rule_nn = self.rule_nn
        g.start = start
        return g

    def fail(self, msg, **kw):
        raise Violation(msg, dict(history=list(self.log), rules=[
            repr(b) for b in self.bodies], **kw))

    def use(self):
        """Builds a parser around the Delays."""
        src = self.src
        if src.chance(50):
            self.bt = self.new_builder()
        n = src.pick(self.pool) if src.chance(60) else self.start
        k = src.below(4)
        if k == 1:
            n = mk_un("label", n, "use", sp=src.below(2))
        elif k == 2:
            n = mk_un("fmap", n, ("tag", 5), sp=src.below(2))
        elif k == 3:
            i = src.below(len(self.delays))
            n = mk_seq(src.pick(("seq", "seql", "seqr")), n,
                       N("ref", (i,), not self.rule_nn[i], True),
                       src.below(3))
        if src.chance(50):
            n = mk_seq("seql", n, N("eof", (), True))
        self.keep = getattr(self, "keep", [])
        self.keep.append(n)
        self.parsers.append((n, self.bt.node(n)))
        self.log.append("P%d = %s" % (len(self.parsers) - 1, n))

    def define(self):
        src = self.src
        i = src.below(len(self.delays))
        if src.chance(50):
            self.bt = self.new_builder()
        first = self.defined[i] is None
        body = self.bodies[i]
        if not first:
            body = src.pick(self.pool)
        p = self.bt.node(body)
        try:
            r = self.delays[i].define(p)
        except RuntimeError:
            if first:
                self.fail("the first definition of D%d raised" % i)
            self.log.append("D%d.define again: rejected" % i)
        else:
            if not first:
                self.log.append("D%d.define(%s)" % (i, body))
                self.fail("the second definition of D%d did not raise" % i)
            if r is not None:
                self.fail("define() returned %r" % (r,))
            self.defined[i] = self.bodies[i]
            self.log.append("D%d.define(%s)" % (i, body))

    def parse(self):
        src = self.src
        k = src.below(len(self.parsers))
        node, parser = self.parsers[k]
        g = self.cur(node)
        gi = self.cur(node)
        gi.rules = self.bodies
        c = Case(g, parser)
        c.mode = gen_mode(src, gi)
        recover = src.chance(50)
        self.log.append("P%d.parse(%r, %s)" % (k, c.mode.stream, recover))
        try:
            plain = model_plain(c)
        except Undef:
            plain = ("undef",)
        want = plain
        if recover and plain[0] not in ("undef", "ok"):
            try:
                want = model_recover(c)
            except Undef:
                want = ("maybe undef",)
        res, exc = real_parse(parser, c.mode, recover)
        kw = dict(parser=repr(node), input=repr(c.mode.stream),
                  mode=c.mode.name, recover=recover)
        if exc is not None:
            if exc[0] != "RuntimeError":
                self.fail("parse raised %s: %s" % exc, **kw)
            ok = want[0] in ("undef", "ill", "maybe undef") or (
                recover and plain[0] != "ok" and None in g.rules)
            if not ok:
                self.fail("a defined parser raised %s: %s" % exc, **kw)
        elif want[0] in ("undef", "ill"):
            self.fail("parse through an undefined Delay did not raise"
                      if want[0] == "undef" else
                      "repetition over an empty match did not raise",
                      got=repr(unwrap(res)), **kw)
        elif want[0] == "maybe undef":
            pass
        else:
            out = unwrap(res)
            if want[0] == "ok":
                good = out == ("ok", want[1])
            else:
                good = out[0] == "err" and \
                    out[1] == expected_errors(c.mode, want[2])
                if want[0] == "rec" and good:
                    out = unwrap(res, True)
                    good = out == ("ok", want[1])
            if not good:
                self.fail("wrong outcome", got=repr(out), want=repr(want),
                          **kw)
        self.rec.label("protocol: %s" % want[0])
        self.rec.case("%r" % (self.log,),
                      want[0] == "undef" or "ref" in kinds(gi),
                      lambda: dict(history=list(self.log)))


def protocol_part(src, rec):
    m = Machine(src, rec)
    n = src.rng_int(3, 14)
    for _ in range(n):
        k = src.weighted([(4, "parse"), (5, "define"), (3, "use")])
        done = len(m.log)
        try:
            getattr(m, k)()
        except Discard:
            del m.log[done:]


def parts(tier):
    k = 6 if tier == "quick" else 80
    return [
        ("wrapped", wrapped_part, 7000 * k),
        ("unrolled", unrolled_part, 3500 * k),
        ("deep", deep_part, 200 * k),
        ("callback", callback_part, 1500 * k),
        ("protocol", protocol_part, 9000 * k),
    ]
