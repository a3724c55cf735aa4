"""C15: error messages render every report faithfully."""
import re

from ..common import case_inputs, gen_grammar, model_plain, model_recover
from ..engine import Discard, Violation
from ..grammar import SPECS
from ..real import LX, Insert, Loc, ParseError, Skip, err_tuples, tok_locs

RULE = (
    "'constructed': ErrorItem, ParseError and LexError values built from "
    "arbitrary locations, expectation lists of 0 to 8 strings (empty, with "
    "commas, braces, percent signs, quotes, newlines, non-ASCII), operations "
    "and item lists of 0 to 8 items; 'parsed': every report of random parses "
    "in all modes, with and without recovery; 'lexed': LexErrors of random "
    "texts; each text compared with an independent renderer working from the "
    "fields; non-trivial: at least two expectations, an operation, or two "
    "items (LexError: past the first line)"
)


def listing(words):
    if len(words) == 0:
        return "unexpected input"
    text = "expected "
    for i, w in enumerate(words):
        if i > 0:
            text += " or " if i == len(words) - 1 else ", "
        text += w
    return text


def item_text(loc_str, expected, op):
    """op: None, ("skip", n) or ("ins", label)"""
    text = "at " + loc_str + ": " + listing(expected)
    if op is not None:
        if op[0] == "skip":
            text += " (skipped " + str(op[1]) + " token" + \
                ("" if op[1] == 1 else "s") + ")"
        else:
            text += " (inserted " + op[1] + ")"
    return text


def report_text(items):
    text = ""
    for i, it in enumerate(items):
        if i:
            text += ", "
        text += item_text(it[1], it[2], it[3])
    return text


def check_report(e, fail):
    items = err_tuples(e)
    for it, obj in zip(items, e.errors):
        want = item_text(it[1], it[2], it[3])
        if obj.msg != want:
            fail("wrong message of an item", got=repr(obj.msg),
                 want=repr(want), item=repr(it))
    want = report_text(items)
    if str(e) != want:
        fail("wrong text of the report", got=repr(str(e)), want=repr(want),
             items=repr(items))
    return items


PIECES = (
    "'a'", "a", "", "a thing", "x, y", "b or c", "{}", "{0}", "%s", "%d%%",
    "'", '"', "\\n", "\n", "é∑", "end of file", "unexpected input",
    "expected", "(inserted x)", "x" * 40, "None", "0", "\\", "{x!r}",
    "two\twords", " L", "L ", "{{x}}", "\r\n", "\u200b", "\ufeff",
)


def word(src):
    if src.chance(70):
        return src.pick(PIECES)
    return "".join(chr(src.pick((9, 0, 13, 97, 32, 44, 123, 125, 37, 39, 10, 233,
                                 8721, 92, 98))) for _ in range(src.below(9)))


def gen_op(src):
    k = src.below(3)
    if k == 0:
        return None
    if k == 1:
        return Skip(src.pick((1, 2, 3, 5, 10, 11, 21, 101, 1000000,
                              src.rng_int(1, 500))))
    return Insert(word(src))


def constructed_part(src, rec):
    from reparsec import ErrorItem
    items = []
    for _ in range(src.weighted([(30, 1), (20, 2), (10, 0), (20, 3), (10, 4),
                                 (10, 8), (1, 40), (1, 120)])):
        loc = Loc(src.below(1000), src.below(50), src.below(200))
        if src.chance(5):
            loc = Loc(*[src.below(10 ** 7) for _ in range(3)])
        ls = src.pick(("0", "1:1", "12:34", "<7>")) if src.chance(60) \
            else word(src)
        exp = [word(src) for _ in range(src.weighted(
            [(30, 1), (20, 0), (30, 2), (30, 3), (10, 4), (10, 8), (1, 30),
             (1, 100)]))]
        if src.below(2000) == 0:
            exp = exp * src.rng_int(100, 2000)
        op = gen_op(src)
        if op is None and src.chance(50):
            items.append(ErrorItem(loc, ls, exp))
        elif src.chance(50):
            items.append(ErrorItem(loc, ls, exp, op))
        else:
            items.append(ErrorItem(
                loc=loc, loc_str=ls, expected=exp, op=op))
        before = (loc, ls, list(exp), op)
        it = items[-1]
        it.msg
        if (it.loc, it.loc_str, it.expected, it.op) != before:
            raise Violation("rendering or construction changed the fields",
                            dict(before=repr(before), after=repr(it)))

    def fail(msg, **kw):
        raise Violation(msg, dict(items=repr(items), **kw))
    e = ParseError(items)
    if e.errors != items:
        fail("ParseError does not carry its items", got=repr(e.errors))
    tup = check_report(e, fail)
    try:
        raise e
    except ParseError as e2:
        check_report(e2, fail)
        if len(e2.errors) != len(items):
            fail("raising changed the items")
    # the message is that of the fields as they are now
    for it in e.errors:
        k = src.below(5)
        if k == 0:
            it.expected.append(word(src))
        elif k == 1:
            it.expected = [word(src) for _ in range(src.below(4))]
        elif k == 2:
            it.op = gen_op(src)
        elif k == 3:
            it.loc_str = word(src)
    if src.chance(30) and e.errors:
        del e.errors[src.below(len(e.errors))]
    check_report(e, fail)
    rec.label("%d items" % len(items))
    rec.case("c%r" % (tup,),
             len(tup) > 1 or any(len(t[2]) > 1 or t[3] for t in tup),
             lambda: dict(text=str(e)))
    # LexError
    big = 200 if src.chance(5) else 1
    loc = Loc(src.below(5000) * big, src.below(60) * big,
              src.below(200) * big)
    le = LX.LexError(loc)
    want = "Lexing error at " + str(loc.line + 1) + ":" + str(loc.col + 1)
    if str(le) != want or le.loc != loc:
        raise Violation("wrong LexError", dict(
            loc=repr(loc), got=str(le), want=want))
    rec.case("l%r" % (loc,), loc.line > 0)


def parsed_part(src, rec):
    g = gen_grammar(src)
    for c in case_inputs(src, g, 4):
        for recover in (False, True):
            try:
                want = (model_recover if recover else model_plain)(c, 6000)
            except Discard:
                rec.label("too big")
                break
            if want[0] == "ill":
                break
            res = c.mode.parse(c.parser, recover)
            for un in (False, True):
                try:
                    res.unwrap(recover=un)
                except ParseError as e:
                    items = check_report(e, c.fail)
                    for it in items:
                        if it[1] != c.mode.fmt(it[0]):
                            c.fail("location text and field disagree",
                                   item=repr(it), want=c.mode.fmt(it[0]))
                    text = str(e)
                    rec.label("parsed, %s items" % (
                        len(items) if len(items) < 4 else "4+"))
                    rec.case(text, len(items) > 1 or any(
                        len(t[2]) > 1 or t[3] for t in items),
                        lambda: c.desc(report=text, recover=recover))


_SPECS = [re.compile(p) for _, p, _ in SPECS] + [
    re.compile(r"(?P<w>[a-z]+)|(?P<nl>\n)|[ ]+"),
    re.compile(r"(?P<n>\d+)|\s+"),
]


def lexed_part(src, rec):
    spec = src.pick(_SPECS)
    text = "".join(
        src.pick(("a", "1", " ", "\n", "ab", "\n\n", "+", "?", "\r\n", "é",
                  "(", "\t", "x y", "$", "\n  "))
        for _ in range(src.size(14, 300)))
    _, loc = tok_locs(text, spec)
    d = dict(text=repr(text), spec=spec.pattern)
    try:
        LX.split_tokens(text, spec)
    except LX.LexError as e:
        if loc is None:
            raise Violation("LexError on a text that tokenizes", d)
        want = "Lexing error at %d:%d" % (loc[1] + 1, loc[2] + 1)
        if str(e) != want or tuple(e.loc) != loc:
            raise Violation("wrong LexError", dict(
                got="%s %r" % (e, e.loc), want="%s %r" % (want, loc), **d))
        rec.label("lex error")
        rec.case("x" + text + spec.pattern, loc[1] > 0,
                 lambda: dict(error=want, **d))
    else:
        if loc is not None:
            raise Violation("no LexError", dict(want=repr(loc), **d))
        rec.label("lexed")


def parts(tier):
    k = 4 if tier == "quick" else 50
    return [
        ("constructed", constructed_part, 20000 * k),
        ("parsed", parsed_part, 8000 * k),
        ("lexed", lexed_part, 8000 * k),
    ]
