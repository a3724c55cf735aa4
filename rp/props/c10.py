"""C10: layout combinators accept exactly column-consistent input."""
import re

from ..common import (
    case_inputs, check_ill, gen_grammar, model_plain, model_recover, no_exc,
    run_real
)
from ..engine import Violation
from ..grammar import LAYOUT_KINDS, kinds
from ..real import LX, SL, expected_errors, text_loc, unwrap

RULE = (
    "'text'/'tokens': random grammars rich in block/aligned/indented and "
    "texts with generated and broken indentation, value and report compared "
    "with the reference interpreter (columns recomputed from the text) with "
    "and without recovery; 'trees': documents of an indentation language, "
    "valid or with one line moved, compared with a direct column-based "
    "parser; non-trivial: a layout combinator was reached on a line after "
    "the first, or failed"
)


def check(c, rec, recover):
    want = model_recover(c) if recover else model_plain(c)
    res, exc = run_real(c, recover)
    if want[0] == "ill":
        check_ill(c, exc)
        return
    no_exc(c, exc, recover)
    out = unwrap(res)
    nt = False
    if want[0] == "ok":
        if out != ("ok", want[1]):
            c.fail("wrong result", recover=recover, got=repr(out),
                   want=repr(want[1]))
        nt = c.mode.loc(len(c.mode.stream))[1] > 0
    else:
        exp = expected_errors(c.mode, want[2])
        if out[0] != "err" or out[1] != exp:
            c.fail("wrong report", recover=recover, got=repr(out[1]),
                   want=repr(exp))
        nt = any("indentation" in e[2] for e in exp) or exp[0][0][1] > 0
        if want[0] == "rec":
            fixed = unwrap(res, True)
            if fixed != ("ok", want[1]):
                c.fail("wrong repaired value", got=repr(fixed),
                       want=repr(want[1]), report=out[2])
    rec.label("%s %s" % ("recovering" if recover else "plain", want[0]))
    rec.case("%s|%s" % (recover, c.key()), nt,
             lambda: c.desc(outcome=repr(out)[:300], recover=recover))


def random_part(dom):
    def part(src, rec):
        g = gen_grammar(src, dom, layout=True)
        if not kinds(g) & set(LAYOUT_KINDS):
            return
        for c in case_inputs(src, g, 4):
            check(c, rec, False)
            check(c, rec, True)
    return part


# ------------------------------------------------------------------- trees

SPEC = re.compile(r"(?P<w>\w+)|(?P<c>:)|\s+")


def tree_parser(kind, d):
    from reparsec import Delay
    from reparsec.layout import aligned, block, indented
    from reparsec.sequence import eof, sym
    if kind == "text":
        ws = SL.regexp(r"\s*")
        word = SL.regexp(r"\w+") << ws
        colon = SL.literal(":") << ws
    else:
        ws = None
        word = LX.token("w").fmap(lambda t: t.value)
        colon = sym(LX.Token("c", ":"), "':'")
    node = Delay()
    nodes = node.many()
    node.define(
        aligned(word) + (
            (colon >> block(nodes)) | indented(d, nodes)).maybe())
    start = block(nodes) << eof()
    return ws >> start if ws is not None else start


_PARSERS = {}


def reference(toks, end, d):
    """toks: [(text, column)], end: the column reported at the end of input

    -> (tree, None) or (None, index of failure)"""
    i = 0

    def col():
        return toks[i][1] if i < len(toks) else end

    def nodes(mark):
        nonlocal i
        out = []
        while i < len(toks) and col() == mark and toks[i][0] != ":":
            name = toks[i][0]
            i += 1
            sub = None
            if i < len(toks) and toks[i][0] == ":":
                i += 1
                sub = nodes(col())
            elif col() == mark + d:
                sub = nodes(mark + d)
            out.append((name, sub))
        return out

    t = nodes(col())
    if i < len(toks):
        return None, i
    return t, None


def gen_tree(src, d):
    """Lines of a document."""
    lines = []
    big = src.chance(4)
    budget = [src.below(300) if big else src.size(12, 60, 10)]
    deep = src.pick((7, 20, 40)) if big else 7
    wide = src.pick((4, 4, 60)) if big else 4

    def nodes(col, depth, first=None):
        n = src.rng_int(1, wide)
        for k in range(n):
            budget[0] -= 1
            if budget[0] < 0 and k:
                return
            w = src.pick(("a", "bb", "ccc", "x", "foo", "é"))
            if first is not None and k == 0:
                lines[-1] += w
            else:
                for _ in range(src.below(2) * src.below(2)):
                    lines.append(src.pick(("", "   ", "\t")))
                lines.append(" " * col + w)
            r = src.below(5)
            if depth >= deep or budget[0] < 0:
                continue
            if r == 1 or r == 2:
                nodes(col + d, depth + 1)
            elif r == 3:
                lines[-1] += src.pick((": ", ":", " :  "))
                c = len(lines[-1])
                nodes(c, depth + 1, True)
            elif r == 4 and src.below(4) == 0:
                c = src.below(9)
                lines[-1] += ":"
                lines.append(" " * c + "n")
    c0 = src.below(4)
    if src.below(150) == 0:
        # far to the right, or far down
        budget[0] = min(budget[0], 20)
        if src.chance(70):
            c0 = src.pick((79, 127, 254, 255, 256, 1000, 1024, 4095,
                           src.rng_int(60, 10000)))
        else:
            lines.extend([""] * src.pick((255, 1000, 4096, 10000)))
    nodes(c0, 0)
    return lines


def tree_part(src, rec):
    from reparsec import ParseError
    d = src.pick((2, 1, 4, 3))
    lines = gen_tree(src, d)
    if src.chance(60):
        for _ in range(src.rng_int(1, 2)):
            j = src.below(len(lines))
            k = src.rng_int(0, 3)
            if k == 0:
                lines[j] = " " + lines[j]
            elif k == 1 and lines[j].startswith(" "):
                lines[j] = lines[j][1:]
            elif k == 2:
                lines[j] = " " * src.below(8) + lines[j].strip()
            else:
                lines.insert(j, " " * src.below(8) + "zz")
    text = ("\n" * src.below(2)) + "\n".join(lines) + "\n" * src.below(2)
    kind = src.pick(("text", "tok"))
    toks = [(m.group(), text_loc(text, m.start())[2], m.start())
            for m in re.finditer(r"\w+|:", text)]
    if kind == "text":
        end = text_loc(text, len(text))[2]
    else:
        # the lexer's location at the end is the end of the last token
        end = toks[-1][1] + len(toks[-1][0])
    tree, bad = reference([t[:2] for t in toks], end, d)
    parser = _PARSERS.get((kind, d))
    if parser is None:
        parser = _PARSERS[kind, d] = tree_parser(kind, d)

    def fail(msg, **kw):
        raise Violation(msg, dict(document=text, parser=kind, delta=d, **kw))

    for recover in (False, True):
        if kind == "text":
            res = SL.parse(parser, text, recover)
        else:
            res = LX.parse(parser, LX.split_tokens(text, SPEC), recover)
        try:
            got = res.unwrap()
        except ParseError as e:
            if tree is not None:
                fail("well-laid-out document rejected", got=str(e),
                     recover=recover)
            loc = text_loc(text, toks[bad][2])
            if tuple(e.errors[0].loc) != loc:
                fail("layout error at a wrong location", got=str(e),
                     want=repr(loc), recover=recover)
            exp = set(e.errors[0].expected)
            if not exp <= {"indentation", "end of file", "':'"}:
                fail("unexpected expectations", got=str(e))
        else:
            if tree is None:
                fail("badly laid out document accepted", got=repr(got),
                     recover=recover)
            if got != tree:
                fail("wrong tree", got=repr(got), want=repr(tree),
                     recover=recover)
    rec.label("tree %s" % ("accepted" if tree is not None else "rejected"))
    rec.case("%s%d|%s" % (kind, d, text), len(toks) > 2,
             lambda: {"document": text, "delta": d, "tree": repr(tree)[:300]})


def parts(tier):
    k = 6 if tier == "quick" else 80
    return [
        ("text", random_part("text"), 9000 * k),
        ("tokens", random_part("tok"), 7000 * k),
        ("trees", tree_part, 6000 * k),
    ]
