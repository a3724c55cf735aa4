"""
Inputs of up to 10^5 elements by pumping: the reference is run on A U^m B for
a few small m; what it answers grows linearly in m, and the answer for a huge
m follows without running the reference on it.
"""
from .common import Case, model_plain, model_recover
from .engine import Discard, Violation
from .grammar import G, Gen, N, build, mk_rep, mk_seq, mk_un
from .long import DOMS, accepts, sample_of
from .real import LX, Mode, expected_errors, real_parse, unwrap

SIZES = ((3, 6000), (3, 12000), (2, 34000), (2, 70000), (1, 135000))


class NotLinear(Exception):
    pass


def bare(v):
    """A canonical value without the locations of tokens."""
    if type(v) is tuple:
        if len(v) == 5 and v[0] == "Tok":
            return v[:3]
        if v[:1] in (("L",), ("T",)):
            return v[:1] + tuple([bare(x) for x in v[1:]])
    return v


def grow(v0, v1, k):
    """Given the values for m and m + 1, the value for m + k."""
    if v0 == v1:
        return v0
    if type(v0) is not type(v1):
        raise NotLinear
    if type(v0) is int:
        return v0 + (v1 - v0) * k
    if type(v0) is not tuple:
        raise NotLinear
    d = len(v1) - len(v0)
    if d == 0:
        return tuple([grow(a, b, k) for a, b in zip(v0, v1)])
    if d < 0:
        raise NotLinear
    i = 0
    while i < len(v0) and v0[i] == v1[i]:
        i += 1
    if v0[i:] != v1[i + d:]:
        raise NotLinear
    return v0[:i] + v1[i:i + d] * k + v0[i:]


class Pumped:
    """A huge Case with the outcomes the reference predicts."""

    def __init__(self, case, n, plain, recover):
        self.case = case
        self.n = n
        self.plain = plain
        self.recover = recover

    def desc(self, **kw):
        return dict(self.what, **kw)


def pump_case(src, rec, errors=None, recover=True):
    """
    errors: how many of head and tail are damaged (default 0 to 2).  Gives a
    Pumped or None; `plain` and `recover` as the reference's, values bare.
    """
    name = src.pick(("seq", "seq", "text", "tok"))
    dom = DOMS[name](src)
    ex = {"chainl1", "chainr1"}
    if name == "tok":
        ex.add("bind")
    gen = Gen(src, dom, exclude=ex, n_rules=0, max_depth=2)
    item = gen.node(True, False, 2)
    kind = src.pick(("many", "many", "sep_by", "nested", "gap"))
    sepn = gen.dom.leaf(src, True)
    gap = None
    if kind == "sep_by":
        start = mk_rep("sep_by", item, sepn)
        gap = sepn
    else:
        unit = item
        if kind == "nested":
            unit = mk_seq("seql", mk_seq("seq", item, mk_un(
                "many", mk_seq("seqr", sepn, item), nullable=True)),
                gen.node(True, True, 0))
        elif kind == "gap":
            unit = mk_seq("seq", item, gen.dom.leaf(src, True))
        start = mk_un("many", unit, nullable=True)
        item = unit
    g = G(dom)
    h = G(dom)
    h.start = start
    if src.chance(30):
        start = mk_seq("seql", start, gen.dom.leaf(src, True))
    g.start = start
    if src.chance(70):
        g.start = mk_seq("seql", start, N("eof", (), True))
    glue = "" if name == "text" else " " if name == "tok" else []
    for _ in range(6):
        us = [sample_of(dom, item, src) for _ in range(src.rng_int(1, 3))]
        if gap is not None:
            us = [sample_of(dom, gap, src) + glue + u + glue for u in us]
            first = sample_of(dom, item, src) + glue
        else:
            us = [u + glue for u in us]
            first = us[0][:0]
        period = us[0][:0]
        for u in us:
            period = period + u
        if len(period) and accepts(h, first + period + period, dom):
            break
    else:
        rec.label("no valid sample")
        return None
    k = src.rng_int(0, 3)
    head = first
    for _ in range(k):
        head = head + src.pick(us)
    tail = head[:0]
    for _ in range(src.rng_int(0, 3)):
        tail = tail + src.pick(us)
    n_err = errors if errors is not None else src.weighted(
        [(3, 1), (2, 0), (2, 2)])
    for _ in range(n_err):
        if len(head) and src.chance(40):
            head = dom.mutate(src, head, 1)
        else:
            tail = dom.mutate(src, tail, 1)
    if kind == "gap":
        # what is repeated is the junk in the gap
        row = period
        head = head + period
        at = src.below(len(head)) + 1
        head, tail = head[:at], head[at:] + period + tail
        first = head[:0] if gap is None else first
        period = "~" if name == "text" else [dom.junk] if name == "seq" \
            else " , "
    # a second repetition behind something damaged, or a gap far into the input
    mid = head[:0]
    other = None
    if kind == "gap":
        if src.chance(60):
            mid, head = head, head[:0] + first
            other, period = period, row
    elif src.chance(40):
        mid = dom.mutate(src, src.pick(us), 1)
        other = period
    max_ins = src.pick((5, 5, 5, 1, 0, 12)) if name == "seq" else 5

    def mode_of(n, n2):
        out = head + period * n + mid
        if other is not None:
            out = out + other * n2
        out = out + tail
        if name == "tok":
            try:
                return Mode("lex", LX.split_tokens(out, dom.re), src=out)
            except LX.LexError:
                raise Discard("source does not tokenize")
        if name == "seq":
            if dom.chars and as_str:
                out = "".join(out)
            return Mode("plain", out, max_ins)
        return Mode("sl", out, max_ins)
    as_str = src.chance(30)
    m = 2 * (len(head) + len(mid) + len(tail)) + 20
    parser = build(g).start

    def refer(n, n2):
        c = Case(g, parser)
        c.mode = mode_of(n, n2)
        c.fuel = 80000
        c.max_depth = 12
        a = model_plain(c)
        b = None
        if recover:
            b = a if a[0] in ("ok", "ill") else model_recover(c)
        if a[0] == "ill" or b is not None and b[0] == "ill":
            raise Discard("repetition over an empty match")
        a = a[:1] + (bare(a[1]), a[2])
        if b is not None:
            b = b[:1] + (bare(b[1]), b[2])
        return a, b

    def freeze(x):
        if type(x) is list:
            x = tuple(x)
        if type(x) is tuple:
            return tuple([freeze(y) for y in x])
        return x
    def refer2(n, n2):
        return freeze(refer(n, n2))
    try:
        v0 = refer2(m, m)
        v1 = refer2(m + 1, m)
        for k in (2, m + 3):
            if grow(v0, v1, k) != refer2(m + k, m):
                raise NotLinear
        if other is not None:
            w0 = refer2(m, m + 1)
            w1 = refer2(m + 1, m + 1)
            for k in (2, m + 3):
                if grow(v0, w0, k) != refer2(m, m + k):
                    raise NotLinear
            if grow(grow(v0, v1, 4), grow(w0, w1, 4), 3) != \
                    refer2(m + 4, m + 3):
                raise NotLinear
    except NotLinear:
        rec.label("not linear")
        return None
    except Discard:
        return None
    for v in (v0, v1):
        if v[0][0] == "err" and len(v[0][2]) != 1:
            raise AssertionError
    if recover and v0[1][0] == "rec" and len(v0[1][2]) != len(v1[1][2]):
        return None
    size = src.weighted(SIZES)
    if name == "tok":
        size //= 2
    both = len(period) + (len(other) if other is not None else 0)
    n = max(m + 4, size // max(1, both))
    n2 = n + src.below(3) if other is not None else m
    try:
        a, b = grow(v0, v1, n - m)
        if other is not None:
            a, b = grow((a, b), grow(w0, w1, n - m), n2 - m)
    except NotLinear:
        rec.label("not linear")
        return None
    c = Case(g, parser)
    c.mode = mode_of(n, n2)
    p = Pumped(c, n, a, b)
    shown = "%r + %r * %d" % (head, period, n)
    if other is not None:
        shown += " + %r + %r * %d" % (mid, other, n2)
    p.what = {
        "grammar": g.show(), "mode": c.mode.name,
        "input": "%s + %r" % (shown, tail),
        "max_insertions": max_ins,
    }
    rec.label("pumped %s %s%s, %s" % (
        name, kind, " twice" if other is not None else "", b[0] if b is not None else a[0]))
    return p


def run(p, recover):
    """(outcome of unwrap(), outcome of unwrap(recover=True)), values bare."""
    res, exc = real_parse(p.case.parser, p.case.mode, recover)
    if exc is not None:
        fail(p, "parse raised %s: %s" % exc, recover=recover)
    a, b = unwrap(res), unwrap(res, True)
    if a[0] == "ok":
        a = ("ok", bare(a[1]))
    if b[0] == "ok":
        b = ("ok", bare(b[1]))
    return a, b


def fail(p, msg, **kw):
    raise Violation(msg, p.desc(**kw))


def report(p, want):
    """The error tuples the reference predicts."""
    return expected_errors(p.case.mode, [
        (at, exp, op) for at, exp, op in want[2]])


def short(x):
    x = repr(x)
    return x if len(x) < 600 else x[:300] + " ... " + x[-300:]


def pump_part(judge, errors=None, recover=True):
    """judge(p): raises through fail()."""
    def part(src, rec):
        e = errors(src) if errors is not None else None
        p = pump_case(src, rec, e, recover)
        if p is None:
            return
        judge(p)
        d = p.desc()
        rec.case("pumped|%r" % sorted(d.items()), True, d)
    part.may_be_slow = 8.0
    return part


def plain_value(p):
    """Plain parsing accepts what it must, with the right value."""
    got = run(p, False)[0]
    if p.plain[0] == "ok":
        if got != ("ok", p.plain[1]):
            fail(p, "wrong outcome on a long input", got=short(got),
                 want=short(p.plain))
    elif got[0] != "err":
        fail(p, "an invalid long input is accepted", got=short(got))


def plain_error(p):
    got = run(p, False)[0]
    if p.plain[0] == "ok":
        return
    if got[0] != "err" or got[1] != report(p, p.plain):
        fail(p, "wrong error on a long input", got=short(got),
             want=short(report(p, p.plain)))


def both(p):
    """Recovery changes neither the verdict nor the value."""
    a = run(p, False)[0]
    b, c = run(p, True)
    if (a[0] == "ok") != (b[0] == "ok"):
        fail(p, "recovery changes the verdict on a long input",
             plain=short(a), recovering=short(b))
    if a[0] == "ok" and not (a == b == c):
        fail(p, "recovery changes the value of a long input",
             plain=short(a), recovering=short(b))


def same_repair(p):
    a, b = run(p, True)
    want = p.recover
    if want[0] == "ok":
        good = a == b == ("ok", want[1])
    else:
        good = a[0] == "err" and a[1] == report(p, want)
        if want[0] == "rec":
            good = good and b == ("ok", want[1])
        else:
            good = good and b[0] == "err"
    if not good:
        fail(p, "wrong outcome with recovery on a long input",
             got=short((a, b)), want=short(want))


def value_of_report(p):
    a, b = run(p, True)
    want = p.recover
    if want[0] != "rec" or a[0] != "err":
        return
    ops = [(x[0][0], x[3]) for x in a[1]]
    ref = [(x[0][0], x[3]) for x in report(p, want)]
    if ops != ref:
        # another repair: its edits must lead to its value, where those of
        # the reference lead to the reference's
        if all(o[1] is not None and o[1][0] == "skip" for o in ops + ref) \
                and edited(p, ref) == ("ok", want[1]) and \
                edited(p, ops) != b:
            fail(p, "the value is not that of the edits on a long input",
                 got=short(b), edited=short(edited(p, ops)), ops=short(ops))
        return
    if b != ("ok", want[1]):
        fail(p, "the value is not that of the edits on a long input",
             got=short(b), want=short(want[1]), ops=short(ops))


def edited(p, ops):
    """Plain outcome of the input with the elements skipped taken out."""
    m = p.case.mode
    st = m.stream
    at = {m.loc(i)[0]: i for i in range(len(st) + 1)}
    out = st[:0]
    done = 0
    for pos, (_, n) in ops:
        i = at.get(pos)
        if i is None or i < done or i + n > len(st):
            return ("bad edits", pos, n)
        out = out + st[done:i]
        done = i + n
    out = out + st[done:]
    q = Mode(m.name, out, m.max_ins, m.src)
    res, exc = real_parse(p.case.parser, q, False)
    if exc is not None:
        return ("exc",) + exc
    r = unwrap(res)
    return ("ok", bare(r[1])) if r[0] == "ok" else r


def right_report(p):
    a, b = run(p, True)
    want = p.recover
    if want[0] == "ok":
        return
    if a[0] != "err" or a[1] != report(p, want):
        fail(p, "wrong report on a long input", got=short(a),
             want=short(report(p, want)))
    if (b[0] == "ok") != (want[0] == "rec"):
        fail(p, "unwrap(recover=True) is wrong on a long input",
             got=short(b), want=short(want))


def both_reports(p):
    """Every location, with and without recovery."""
    plain_error(p)
    right_report(p)
