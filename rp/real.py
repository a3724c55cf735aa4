"""
Running the code under test and reading its outcomes (public API only).
"""
import bisect
import os
import sys

REPO = os.environ.get("REPARSEC_REPO", "/repo")
_src = os.path.join(REPO, "src")
if _src not in sys.path:
    sys.path.insert(0, _src)

import reparsec  # noqa: E402

if not os.path.realpath(reparsec.__file__).startswith(
        os.path.realpath(_src) + os.sep):
    raise SystemExit("reparsec imported from %s" % reparsec.__file__)

from reparsec import Insert, Loc, ParseError, Skip  # noqa: E402
from reparsec import lexer as LX  # noqa: E402
from reparsec import scannerless as SL  # noqa: E402

from .engine import Discard, Violation  # noqa: E402
from .grammar import build, canon  # noqa: E402
from . import model as M  # noqa: E402


def op_tuple(op):
    if op is None:
        return None
    if type(op) is Skip:
        return ("skip", op.count)
    if type(op) is Insert:
        return ("ins", op.label)
    return ("?", repr(op))


def err_tuples(err):
    try:
        return [
            (tuple(e.loc), e.loc_str, tuple(e.expected), op_tuple(e.op))
            for e in err.errors
        ]
    except (TypeError, AttributeError) as e:
        raise Violation("malformed error report: %s" % e, {
            "errors": repr(err.errors)[:2000]})


def unwrap(res, recover=False):
    """('ok', canonical value) | ('err', [items], str) | ('exc', name)"""
    try:
        v = res.unwrap(recover=recover)
    except ParseError as e:
        return ("err", err_tuples(e), str(e))
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:200])
    return ("ok", canon(v))


# ---------------------------------------------------------------- locations


def text_loc(s, p):
    """(pos, line, col), recomputed from scratch."""
    before = s[:p]
    line = 0
    last = -1
    for i, c in enumerate(before):
        if c == "\n":
            line += 1
            last = i
    return (p, line, p - last - 1)


def locator(s):
    """p -> (pos, line, col), from a table of where the lines start."""
    starts = [0]
    for i, c in enumerate(s):
        if c == "\n":
            starts.append(i + 1)

    def loc(p):
        k = bisect.bisect_right(starts, p) - 1
        return (p, k, p - starts[k])
    return loc


def tok_locs(src, spec):
    """
    Reference tokenizer: ([(kind, value, start, end)], None) or
    (tokens so far, error location).
    """
    loc = locator(src)
    toks = []
    p = 0
    while p < len(src):
        m = spec.match(src, p)
        if m is None or m.end() == p:
            return toks, loc(p)
        if m.lastgroup is not None:
            toks.append((m.lastgroup, m.group(m.lastgroup),
                         loc(p), loc(m.end())))
        p = m.end()
    return toks, None


class Mode:
    """How a stream is parsed, and the reference notion of location for it."""

    def __init__(self, name, stream, max_ins=5, src=None):
        self.name = name
        self.stream = stream
        self.max_ins = max_ins
        self.src = src
        if name == "sl" or name == "slm":
            loc = locator(stream)
        elif name in ("lex", "lexm"):
            def loc(p):
                if p < len(stream):
                    return tuple(stream[p].start)
                if len(stream):
                    return tuple(stream[-1].end)
                return (0, 0, 0)
        else:
            def loc(p):
                return (p, 0, 0)
        self.loc = loc

    def col(self, p):
        return self.loc(p)[2]

    def fmt(self, loc):
        if self.name == "plain":
            return repr(loc[0])
        if self.name == "slm" or self.name == "lexm":
            return "<%d>" % loc[0]
        return "%d:%d" % (loc[1] + 1, loc[2] + 1)

    def parse(self, parser, recover):
        st = self.stream
        if self.name == "plain":
            if self.max_ins == 5:
                return parser.parse(st, recover=recover)
            return parser.parse(st, recover, max_insertions=self.max_ins)
        if self.name == "sl":
            return SL.parse(parser, st, recover)
        if self.name == "lex":
            return LX.parse(parser, st, recover)
        if self.name == "slm":
            return parser.parse(
                st, recover, max_insertions=self.max_ins,
                get_loc=inc_loc, fmt_loc=lambda l: "<%d>" % l.pos)
        if self.name == "lexm":
            return parser.parse(
                st, recover, max_insertions=self.max_ins,
                get_loc=lambda _, s, p: Loc(*self.loc(p)),
                fmt_loc=lambda l: "<%d>" % l.pos)
        raise AssertionError


def inc_loc(loc, stream, pos):
    """A user-written incremental location function."""
    p, line, col = loc
    if pos < p:
        raise AssertionError("location function asked to go backwards")
    while p < pos:
        if stream[p] == "\n":
            line, col = line + 1, 0
        else:
            col += 1
        p += 1
    return Loc(p, line, col)


def interp(g, mode, fuel=20000):
    return M.Interp(
        g, mode.stream, mode.col, fuel, LX.Token,
        lambda p: Loc(*stream_loc(mode.stream, p)))


def stream_loc(stream, p):
    """Where a token inserted at p stands, whatever get_loc is in use."""
    if p < len(stream):
        return stream[p].start
    return stream[-1].end if len(stream) else (0, 0, 0)


def real_parse(parser, mode, recover):
    """Returns (ParseResult, None) or (None, exception name)."""
    try:
        return mode.parse(parser, recover), None
    except Exception as e:
        return None, (type(e).__name__, str(e)[:200])


def expected_errors(mode, errs):
    return [
        (mode.loc(at), mode.fmt(mode.loc(at)), tuple(exp), op)
        for at, exp, op in errs
    ]


def stream_repr(st):
    if isinstance(st, str):
        return repr(st)
    return repr(list(st))
