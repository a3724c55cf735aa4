"""C17: parsing terminates and scales; only documented exceptions escape."""
import sys
import zlib

from .. import model as M
from ..common import (
    Case, case_inputs, check_ill, gen_mode, model_plain, model_recover,
    run_real
)
from ..engine import Discard, Violation
from ..grammar import (
    G, Gen, N, Op, SeqDom, TextDom, TokDom, build, canon, mk_alt, mk_rep,
    mk_seq, mk_un, sample
)
from ..long import accepts, sample_of
from ..real import (
    LX, Mode, ParseError, SL, expected_errors, interp, real_parse, unwrap
)

RULE = (
    "'flat': random finite items repeated through many, sep_by, chainl1 or "
    "chainr1 over inputs of hundreds to thousands of elements, valid or with "
    "one to three mutations, under the default recursion limit, with and "
    "without recovery: outcome equal to the reference's, and each element "
    "read at most a fixed number of times per terminal of the grammar; "
    "'work': four times the input must not execute more than six times the "
    "lines of Python; "
    "'loose': random grammars including repetitions over nullable bodies; "
    "'hostile': arbitrary Unicode text, odd regular expressions, odd lexer "
    "specifications, undefined Delays, empty literals; non-trivial: at least "
    "200 elements (flat), an exception was due or the input was rejected "
    "(loose, hostile)"
)

LIMIT = 1000    # Python's default recursion limit
SLACK = 40      # frames a caller may already use


def default_limit(fn, *args):
    """Runs fn as if called near the bottom of a fresh interpreter's stack."""
    depth = 0
    f = sys._getframe()
    while f is not None:
        depth += 1
        f = f.f_back
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(depth + LIMIT - SLACK)
    try:
        return fn(*args)
    finally:
        sys.setrecursionlimit(old)


class Counting(list):
    """Counts how often each element is read."""

    def __init__(self, xs):
        list.__init__(self, xs)
        self.counts = [0] * len(xs)

    def __getitem__(self, i):
        if isinstance(i, int):
            if -len(self) <= i < len(self):
                self.counts[i] += 1
        return list.__getitem__(self, i)


def crc(*xs):
    return zlib.crc32(repr(xs).encode("utf-8", "backslashreplace"))


def terminals(n):
    """Terminals of a node, counted with repetition."""
    r = 0
    for a in n.args:
        for x in (a if isinstance(a, (list, tuple)) else (a,)):
            if isinstance(x, N):
                r += terminals(x)
    return r if r or n.kind in ("pure", "purefn") else 1


class FlatGen(Gen):
    pass


EXCLUDE = ("attempt", "bind", "chainl1", "chainr1")


DOMS = {"seq": SeqDom, "text": TextDom, "tok": TokDom}


class Flat:
    """A repetition of some item, and how to write inputs for it."""

    def __init__(self, src, rec, dom_name):
        self.ok = False
        self.dom = dom = DOMS[dom_name](src)
        gen = Gen(src, dom, exclude=EXCLUDE, n_rules=0, max_depth=2)
        item = gen.node(True, False, 2)
        if src.chance(15):
            # a wide choice, nested to the left or to the right
            right = src.chance(50)
            for _ in range(src.rng_int(6, 14)):
                x = gen.leaf(True, False)
                item = mk_alt(x, item) if right else mk_alt(item, x)
        kind = src.pick(("many", "sep_by", "chainl1", "chainr1", "nested"))
        sepn = gen.node(True, True, src.below(2))
        if dom_name == "seq" and src.chance(40):
            sepn = N("sym", (src.pick(dom.alpha), None), False)
        self.g = g = G(dom)
        self.kind = kind
        self.chain = None
        if kind == "many":
            start = mk_un("many", item, nullable=True)
        elif kind == "sep_by":
            start = mk_rep("sep_by", item, sepn)
        elif kind == "nested":
            inner = mk_seq("seq", item, mk_un(
                "many", mk_seq("seqr", sepn, item), nullable=True))
            end = gen.node(True, True, 0)
            start = mk_un("many", mk_seq("seql", inner, end), nullable=True)
        else:
            start = self.chain = mk_seq("seq", item, mk_un(
                "many", mk_seq("seq", sepn, item), nullable=True))
        real = build_flat(g, item, sepn, start,
                          kind if self.chain else None, src)
        g.start = start
        self.eof = src.chance(60)
        if self.eof:
            g.start = mk_seq("seql", start, N("eof", (), True))
            from reparsec.sequence import eof as eof_
            real = real << eof_()
        self.real = real
        # ---- a long input
        self.glue = glue = "" if dom_name == "text" else \
            " " if dom_name == "tok" else []
        unit, gap = item, None
        if kind == "nested":
            unit = mk_seq("seql", inner, end)
        elif kind != "many":
            gap = sepn
        for _ in range(8):
            units = [sample_of(dom, unit, src) for _ in range(3)]
            gaps = [sample_of(dom, gap, src) for _ in range(2)]
            out = units[0]
            for i in range(1, 4):
                out = out + glue + gaps[i % 2] + glue + units[i % 3]
            if accepts(g, out, dom):
                break
        else:
            rec.label("no valid sample")
            if src.chance(70):
                return
        self.units = units
        self.gaps = gaps
        self.ok = True

    def repeat(self, n):
        """n units with the gaps between them."""
        out = self.units[0]
        parts = [out]
        for i in range(1, n):
            parts += [self.glue, self.gaps[i % 2], self.glue,
                      self.units[i % 3]]
        if isinstance(out, str):
            return "".join(parts)
        return [x for p in parts for x in p]

    def lexes(self, out):
        if isinstance(self.dom, TokDom):
            try:
                LX.split_tokens(out, self.dom.re)
            except LX.LexError:
                return False
        return True


def count_lines(fn, *args):
    """(result, number of lines of Python executed)"""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
        return local

    def tracer(frame, event, arg):
        return local
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        r = fn(*args)
    finally:
        sys.settrace(old)
    return r, n[0]


def work_part(src, rec):
    """Four times the input costs about four times the work."""
    f = Flat(src, rec, src.pick(("seq", "seq", "text", "tok")))
    if not f.ok or f.chain:
        return
    n = src.pick((60, 100, 160))
    outs = [f.repeat(n), f.repeat(4 * n)]
    if not all(f.lexes(o) for o in outs):
        return
    tail = src.chance(25)
    if tail:
        t = f.dom.mutate(src, f.units[0], 1)
        outs = [o + f.glue + t for o in outs]
        if not all(f.lexes(o) for o in outs):
            return
    c = Case(f.g, f.real)
    name = None
    work = {}
    for i, out in enumerate(outs):
        c.mode = gen_mode(src, f.g, 5, out)
        name = name or c.mode.name
        c.mode = Mode(name, c.mode.stream, 5, c.mode.src)
        if i == 0:
            first = c.mode

        def run(recover):
            if f.dom.name == "tok":
                LX.split_tokens(out, f.dom.re)
            res, exc = real_parse(c.parser, c.mode, recover)
            return exc or raw_outcome(res)
        for recover in (False, True):
            if recover and (tail or work[i, False][0] != "ok"):
                continue    # recovery from many errors is exponential
            kind, lines = count_lines(default_limit, run, recover)
            if kind not in ("ok", "err"):
                c.fail("parse raised %s: %s" % kind, recover=recover,
                       elements=len(c.mode.stream))
            work[i, recover] = kind, lines
    for recover in (False, True):
        if (0, recover) not in work or (1, recover) not in work:
            continue
        (k0, w0), (k1, w1) = work[0, recover], work[1, recover]
        if k0 != k1:
            continue
        if w1 > 6 * w0 + 3000:
            c.fail("%d elements took %d lines of Python, %d elements %d" % (
                len(first.stream), w0, len(c.mode.stream), w1),
                recover=recover)
        rec.label("work x4: x%.1f" % (w1 / w0))
        rec.case("w%s|%s|%s" % (recover, f.eof, c.key()),
                 len(c.mode.stream) >= 200,
                 lambda: dict(grammar=f.g.show(), kind=f.kind, lines=w1,
                              elements=len(c.mode.stream), recover=recover))


def raw_outcome(res):
    try:
        res.unwrap()
        return "ok"
    except ParseError as e:
        str(e)
        return "err"


def flat_part(dom_name):
    def part(src, rec):
        f = Flat(src, rec, dom_name)
        if not f.ok:
            return
        dom, g, kind, chain, eof = f.dom, f.g, f.kind, f.chain, f.eof
        real, glue, units, gaps = f.real, f.glue, f.units, f.gaps
        want_len = src.pick((300, 700, 1500, 3000))
        out = units[0]
        i = 1
        while len(out) < want_len:
            out = out + glue + gaps[i % 2] + glue + units[i % 3]
            i += 1
            if i > 4000:
                return
        if dom_name == "tok":
            if not f.lexes(out):
                return
        errors = src.below(4) if src.chance(60) else 0
        if errors:
            out = dom.mutate(src, out, errors)
        c = Case(g, real)
        c.mode = gen_mode(src, g, 5 if src.chance(70) else None, out)
        if not isinstance(c.mode.stream, str):
            m = c.mode
            m.stream = Counting(m.stream)
        for recover in (False, True):
            it = interp(g, c.mode, 60000)
            if recover:
                it.max_depth = 60       # few errors
            try:
                if recover:
                    want = M.recovering(it, c.mode.max_ins)
                else:
                    want = M.plain(it)
            except M.OutOfFuel:
                rec.label("too big")
                continue
            except M.Ill:
                want = ("ill",)
            bound = (4 * terminals(g.start) + 8)
            counting = isinstance(c.mode.stream, Counting)
            if counting:
                c.mode.stream.counts = [0] * len(c.mode.stream)
            res, exc = default_limit(real_parse, c.parser, c.mode, recover)
            if want[0] == "ill":
                check_ill(c, exc)
                continue
            if exc is not None:
                c.fail("parse raised %s: %s" % exc, recover=recover,
                       elements=len(c.mode.stream))
            a = default_limit(unwrap, res)
            if want[0] == "ok":
                v = fold(want[1], kind) if chain else want[1]
                good = a == ("ok", v)
            else:
                good = a[0] == "err" and \
                    a[1] == expected_errors(c.mode, want[2])
                if good and want[0] == "rec":
                    a = default_limit(unwrap, res, True)
                    v = fold(want[1], kind) if chain else want[1]
                    good = a == ("ok", v)
            if not good:
                c.fail("wrong outcome on a long input", recover=recover,
                       got=repr(a)[:800], want=repr(want)[:800])
            if counting and (not recover or want[0] == "ok"):
                worst = max(c.mode.stream.counts, default=0)
                if worst > bound:
                    i = c.mode.stream.counts.index(worst)
                    c.fail("element %d was read %d times (bound %d)" % (
                        i, worst, bound), recover=recover,
                        elements=len(c.mode.stream))
                rec.label("reads per element <= %d" % (
                    4 * ((worst + 3) // 4)))
            rec.label("flat %s %s %s" % (kind, recover, want[0]))
            rec.case("%s|%s|%s|%s" % (kind, recover, eof, c.key()),
                     len(c.mode.stream) >= 200,
                     lambda: dict(grammar=g.show(), kind=kind,
                                  elements=len(c.mode.stream),
                                  recover=recover, outcome=want[0]))
    return part


def fold(cv, kind):
    """Canonical value of the chain, folded iteratively."""
    # ("T", first, ("L", ("T", op, x), ...))
    first, rest = cv[1], cv[2][1:]
    if kind == "chainl1":
        acc = first
        for p in rest:
            acc = canon(crc(p[1], acc, p[2]))
        return acc
    xs = [first] + [p[2] for p in rest]
    acc = xs[-1]
    for i in range(len(rest) - 1, -1, -1):
        acc = canon(crc(rest[i][1], xs[i], acc))
    return acc


def build_flat(g, item, sepn, start, chain, src):
    from ..grammar import builder
    b = builder(g)
    if chain is None:
        return b.node(start)
    op = b.node(sepn).fmap(
        lambda o: lambda x, y: crc(canon(o), canon(x), canon(y)))
    p = b.node(item)
    return p.chainl1(op) if chain == "chainl1" else p.chainr1(op)


# -------------------------------------------------------------------- huge


def num(a, b):
    return (31 * a - 7 * b + 1) % 1000003


def huge_item(src, text):
    """(description, parser, piece, value, may hold junk after 1 element)"""
    from reparsec import Delay
    from reparsec import layout as LY
    from reparsec import primitive as PR
    from reparsec.sequence import satisfy, sym
    term = SL.literal if text else sym
    k = src.below(7)
    if k == 0:
        r = ("a", term("a"), "a", "a", False)
    elif k == 1:
        r = ("a << ;", term("a") << term(";"), "a;", "a", True)
    elif k == 2:
        r = ("b | a", term("b") | term("a"), "a", "a", False)
    elif k == 3:
        r = ("a + c?", term("a") + term("c").maybe(), "a", ("a", None), False)
    elif k == 4:
        r = ("attempt(a >> c) | a >> b",
             (term("a") >> term("c")).attempt() | (term("a") >> term("b")),
             "ab", "b", False)
    elif k == 5:
        r = ("(a >> b) << c", (term("a") >> term("b")) << term("c"), "abc",
             "b", True)
    elif text:
        r = ("regexp", SL.regexp(r"\s*(a)", 1), " a", "a", False)
    else:
        r = ("satisfy", satisfy(str.isalpha), "a", "a", False)
    d, p, piece, v, junk = r
    w = src.below(7)
    if w == 0:
        p = p.label("item")
        d = "label(%s)" % d
    elif w == 1:
        q = Delay()
        q.define(p)
        p = q
        d = "delay(%s)" % d
    elif w == 2:
        p = p.recover()
        d = "recover(%s)" % d
    elif w == 3:
        p = p.bind(lambda x: PR.Pure(x))
        d = "bind(%s)" % d
    elif w == 4:
        p = LY.block(p)
        d = "block(%s)" % d
    return d, p, piece, v, junk


def huge_part(src, rec):
    """Inputs of 10^5 elements whose value is known by construction."""
    from reparsec.sequence import eof, sym
    text = src.chance(40)
    d, p, piece, v, junk = huge_item(src, text)
    n = src.rng_int(40000, 120000)
    kind = src.pick(("many", "sep_by", "chainl1", "chainr1", "nested"))
    term = SL.literal if text else sym
    gap = "" if kind == "many" else ","
    vs = [v] * n
    if kind == "many":
        p = p.many()
    elif kind == "sep_by":
        p = p.sep_by(term(","))
    elif kind == "nested":
        row = src.pick((1, 7, 300))
        p = (p.many() << term(",")).many()
        vs = [vs[i:i + row] for i in range(0, n, row)]
        piece = piece * row
        n = len(vs)
        if n * row != sum(map(len, vs)):
            vs = vs[:-1]
            n -= 1
    else:
        p = p.fmap(lambda x: 2)
        op = term(",").fmap(lambda _: num)
        want = 2
        if kind == "chainl1":
            p = p.chainl1(op)
            for _ in range(n - 1):
                want = num(want, 2)
        else:
            p = p.chainr1(op)
            for _ in range(n - 1):
                want = num(2, want)
        vs = want
    if kind == "nested":
        pieces = [piece + ","] * n
    else:
        pieces = [piece + gap] * n
        pieces[-1] = piece
    errors = 0
    if junk and kind != "nested" or kind == "nested" and junk and row == 1:
        errors = src.below(3)
    for _ in range(errors):
        i = src.below(n)
        pieces[i] = piece[0] + "~" + pieces[i][1:]
    errors = sum("~" in x for x in set(pieces)) and \
        sum(1 for x in pieces if "~" in x)
    inp = "".join(pieces)
    if not text and src.chance(50):
        inp = list(inp)
    p = p << eof()
    m = Mode("sl" if text else "plain", inp)
    desc = dict(item=d, kind=kind, elements=len(inp), junk=errors,
                text=text)
    for recover in (False, True):
        res, exc = default_limit(real_parse, p, m, recover)
        if exc is not None:
            raise Violation("parse raised %s: %s" % exc,
                            dict(desc, recover=recover))
        out = default_limit(unwrap, res)
        good = out[0] == "err" and len(out[1]) == (
            errors if recover else 1) if errors else \
            out == ("ok", canon(vs))
        if good and errors and recover:
            out = default_limit(unwrap, res, True)
            good = out == ("ok", canon(vs))
        if not good:
            raise Violation("wrong outcome on a long input", dict(
                desc, recover=recover, got=repr(out)[:500]))
        rec.label("huge %s %s" % (kind, "junk" if errors else "valid"))
        rec.case("%s|%r" % (recover, sorted(desc.items())), True, desc)


huge_part.may_be_slow = True


# ------------------------------------------------------------------- loose


class LooseGen(Gen):
    """Ignores the rule that repeated bodies consume (not left recursion)."""

    def node(self, nn, guarded, depth):
        nn = nn and self.src.chance(60)
        if depth <= 0 or self.src.chance(18):
            return self.leaf(nn, guarded)
        return self._comp(nn, guarded, depth)


def loose_part(src, rec):
    dom = (SeqDom, TextDom, TokDom)[src.below(3)](src)
    gen = LooseGen(src, dom, n_rules=src.pick((0, 0, 1)), max_depth=3,
                   boost={"many": 3, "sep_by": 3, "maybe": 2, "chainl1": 2})
    try:
        g = gen.grammar()
    except AssertionError:
        return
    for i, r in enumerate(g.rules):
        g.rule_nn[i] = False
    for c in case_inputs(src, g, 3):
        for recover in (False, True):
            it = interp(g, c.mode, 6000)
            try:
                want = M.recovering(it, c.mode.max_ins) if recover \
                    else M.plain(it)
            except M.Ill:
                want = ("ill",)
            except M.OutOfFuel:
                rec.label("too big")
                continue
            res, exc = run_real(c, recover)
            rec.label("loose %s" % want[0])
            rec.case("%s|%s" % (recover, c.key()), want[0] != "ok",
                     lambda: c.desc(recover=recover, outcome=want[0]))
            if want[0] == "ill":
                check_ill(c, exc)
                continue
            if exc is not None:
                c.fail("parse(recover=%s) raised %s: %s" % (
                    (recover,) + exc))
            out = unwrap(res)
            if (out[0] == "ok") != (want[0] == "ok") or out[0] == "exc":
                c.fail("wrong verdict", recover=recover, got=repr(out),
                       want=want[0])


# ----------------------------------------------------------------- hostile

ODD_RE = (
    r"", r"$", r"^", r"\Z", r"\b", r"(?=a)", r"(?<=a)b", r"(?<!a)b", r"a*",
    r"(a)|(b)", r"(?:)", r".", r"(?s).", r"\w+", r"[^\n]*", r"(a)?b",
    r"(?i)AB", r"\x00", r"[\ud800-\udfff]", r"(?m)^x", r"a{2}", r"a*?",
    r"((a))", r"(?P<g>a)?", r"\s*", r"(?s).*", r"[^a]",
)

PIECES = (
    "a", "b", "ab", "\n", "\r\n", "\x00", "\ud800", "\U0001f600", "e\u0301",
    " ", "\t", "\x1c", "\x85", "\u2028", "x", "AB", "0", "'", "\\", "{}",
    "%s", "\ufeff", "K", "ß", "aa",
)


def odd_parser(src, depth):
    from reparsec import Delay
    from reparsec.layout import aligned, block, indented
    from reparsec.primitive import Pure, PureFn, unexpected
    from reparsec.sequence import digit, eof, letter, satisfy, sym
    if depth <= 0 or src.chance(20):
        k = src.below(9)
        if k <= 2:
            pat = src.pick(ODD_RE)
            return SL.regexp(pat), "regexp(%r)" % pat
        if k == 3:
            s = src.pick(PIECES)
            return SL.literal(s), "literal(%r)" % s
        if k == 4:
            s = src.pick(PIECES)
            return sym(s), "sym(%r)" % s
        if k == 5:
            return eof(), "eof()"
        if k == 6:
            return (letter, "letter") if src.below(2) else (digit, "digit")
        if k == 7:
            return satisfy(str.isupper), "satisfy(isupper)"
        return (Pure(0), "Pure(0)") if src.below(3) else (
            (unexpected("q"), "unexpected") if src.below(2)
            else (Delay(), "undefined"))
    k = src.below(16)
    p, a = odd_parser(src, depth - 1)
    if k < 6:
        q, b = odd_parser(src, depth - 1)
        return ((p + q), (p | q), (p << q), (p >> q), (p | q),
                (p + q))[k], "(%s %s %s)" % (
                    a, ("+", "|", "<<", ">>", "|", "+")[k], b)
    if k == 6:
        q, b = odd_parser(src, depth - 1)
        return p.sep_by(q), "%s.sep_by(%s)" % (a, b)
    if k == 7:
        return p.many(), a + ".many()"
    if k == 8:
        return p.maybe(), a + ".maybe()"
    if k == 9:
        return p.attempt(), a + ".attempt()"
    if k == 10:
        return p.label("l"), a + ".label('l')"
    if k == 11:
        return p.recover(), a + ".recover()"
    if k == 12:
        return p.recover_with(None), a + ".recover_with(None)"
    if k == 13:
        return block(p), "block(%s)" % a
    if k == 14:
        return aligned(p), "aligned(%s)" % a
    return indented(src.below(3), p), "indented(%s)" % a


DOCUMENTED = ("RuntimeError",)


def hostile_part(src, rec):
    p, desc = odd_parser(src, src.rng_int(1, 3))
    text = "".join(src.pick(PIECES) for _ in range(src.below(10)))
    for recover in (False, True):
        exc = None
        err = False
        try:
            res = (SL.parse(p, text, recover) if src.below(2)
                   else p.parse(text, recover))
        except Exception as e:
            exc = e
        if exc is not None:
            # an undefined Delay or a repetition over an empty match
            allowed = type(exc) is RuntimeError and (
                "undefined" in desc or ".many()" in desc or
                "sep_by" in desc)
            if not allowed:
                raise Violation("parse raised %s: %s" % (
                    type(exc).__name__, exc), dict(
                        parser=desc, text=repr(text), recover=recover))
        else:
            for un in (False, True):
                out = unwrap(res, un)
                err = err or out[0] == "err"
                if out[0] == "exc":
                    raise Violation("unwrap raised %s: %s" % out[1:], dict(
                        parser=desc, text=repr(text), recover=recover))
        rec.label("hostile %s" % (
            "RuntimeError" if exc is not None else "err" if err else "ok"))
        rec.case("%s|%r|%s" % (desc, text, recover),
                 exc is not None or err,
                 lambda: dict(parser=desc, text=repr(text)))


def documented_part(src, rec):
    """The documented exceptions, where they are due."""
    from reparsec import Delay
    from reparsec.sequence import sym
    try:
        p = SL.literal("")
    except ValueError:
        pass
    except Exception as e:
        raise Violation("literal('') raised %s" % type(e).__name__)
    else:
        raise Violation("literal('') did not raise", dict(got=repr(p)))
    d = Delay()
    pre = "".join(src.pick("ab") for _ in range(src.below(6)))
    p = d
    for ch in reversed(pre):
        p = sym(ch) >> p
    k = src.below(5)
    if k == 1:
        p = p.maybe()
    elif k == 2:
        p = p.attempt()
    elif k == 3:
        p = p.many()
    elif k == 4:
        p = p.label("x")
    cut = src.below(len(pre) + 1)
    wrong = src.chance(30) and cut < len(pre)
    text = pre[:cut] + "~" if wrong else pre
    for recover in (False, True):
        case = dict(prefix=pre, text=text, recover=recover, wrapper=k)
        res, exc = real_parse(p, Mode("plain", text), recover)
        if not wrong and (exc is None or exc[0] != "RuntimeError"):
            raise Violation(
                "parse through an undefined Delay gave %r" % (
                    exc or unwrap(res),), case)
        if wrong and not recover and exc is not None:
            raise Violation("an undefined Delay that is not reached raised "
                            "%s: %s" % exc, case)
        rec.case("d%r" % sorted(case.items()), True, case)
    # a lexer that makes no progress, or does not match
    import re
    pat = src.pick(ODD_RE)
    try:
        spec = re.compile(src.pick(("(?P<t>%s)", "%s", "(?P<u>x)|%s")) % pat)
    except re.error:
        return
    text = "".join(src.pick(PIECES) for _ in range(src.below(8)))
    try:
        LX.split_tokens(text, spec)
        rec.label("lexed")
    except LX.LexError:
        rec.label("LexError")
    rec.case("x%r%r" % (spec.pattern, text), True,
             lambda: dict(spec=spec.pattern, text=repr(text)))


def parts(tier):
    k = 4 if tier == "quick" else 50
    return [
        ("flat sequences", flat_part("seq"), 500 * k),
        ("flat text", flat_part("text"), 250 * k),
        ("flat tokens", flat_part("tok"), 250 * k),
        ("huge", huge_part, 40 * k),
        ("work", work_part, 120 * k),
        ("loose", loose_part, 4000 * k),
        ("hostile", hostile_part, 20000 * k),
        ("documented", documented_part, 3000 * k),
    ]
