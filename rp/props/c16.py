"""C16: whole languages parse to the right values and repairs re-parse."""
import ast

from ..engine import Discard, Violation
from ..grammar import canon
from ..langs import LANGS, Counted, Reject, TooBig
from ..real import LX, SL, ParseError, op_tuple, err_tuples, text_loc

RULE = (
    "JSON (against the standard library), arithmetic with five precedence "
    "levels and calls (against an explicit-stack precedence parser), a "
    "statement language and an indentation-sensitive tree language (against "
    "hand-written recursive descent), each through the lexer and "
    "scannerless: 'valid': generated documents in generated formatting, up "
    "to thousands of characters; 'corrupted': one to three random edits, "
    "verdicts with and without recovery compared and every repaired value "
    "compared with the value of the document with the reported edits "
    "applied; non-trivial: at least five tokens"
    "; 'deep': documents nested up to 200 levels"
)

_P = {}


def parser(lang, kind):
    p = _P.get((lang.name, kind))
    if p is None:
        p = _P[lang.name, kind] = getattr(lang, kind + "_parser")()
    return p


def limit_work(p, text):
    left = [6000]

    def get_loc(loc, stream, pos):
        left[0] -= 1
        if left[0] < 0:
            raise TooBig
        return loc
    p.parse(text, True, get_loc=get_loc)


def run(lang, kind, text, recover, limit=False):
    """('ok', v) | ('err', items, text, repaired or None) | ('lex',)"""
    if kind == "lex":
        try:
            toks = lang.lexed(text)
        except LX.LexError:
            return ("lex",), None
        if not limit:
            toks.left = 1 << 60
        res = LX.parse(parser(lang, kind), toks, recover)
    else:
        toks = None
        if limit:
            limit_work(parser(lang, kind), text)
        res = SL.parse(parser(lang, kind), text, recover)
    try:
        return ("ok", canon(res.unwrap())), toks
    except ParseError as e:
        items = err_tuples(e)
        if not recover:
            return ("err", items, str(e), None), toks
        try:
            return ("err", items, str(e),
                    (res.unwrap(recover=True),)), toks
        except ParseError:
            return ("err", items, str(e), None), toks


def reference(lang, text):
    try:
        return ("ok", canon(lang.ref(text)))
    except Reject:
        return ("reject",)
    except RecursionError:
        raise Discard("reference too deep")


def fail(lang, kind, text, msg, **kw):
    raise Violation(msg, dict(language=lang.name, through=kind,
                              document=text, **kw))


def check_valid(lang, kind, text, want, rec):
    for recover in (False, True):
        got, _ = run(lang, kind, text, recover)
        if got != want:
            fail(lang, kind, text, "valid document: wrong outcome",
                 recover=recover, got=repr(got)[:1500],
                 want=repr(want)[:1500])


def valid_part(src, rec):
    lang = src.pick(LANGS)
    text = lang.gen(src, src.size(30, 400, 6))
    want = reference(lang, text)
    if want[0] != "ok":
        # a generator slip: the document is simply an invalid one
        rec.label("generated invalid " + lang.name)
        check_invalid(lang, text, rec, False)
        return
    n = len(lang.tokens(text))
    for kind in ("lex", "text"):
        check_valid(lang, kind, text, want, rec)
        rec.label("valid %s %s" % (lang.name, kind))
        rec.case("%s|%s|%s" % (lang.name, kind, text), n >= 5,
                 lambda: dict(language=lang.name, document=text[:600]))


def corrupt(lang, text, src):
    for _ in range(src.weighted([(5, 1), (3, 2), (1, 3)])):
        i = src.below(len(text) + 1)
        k = src.below(6)
        if k == 0:
            text = text[:i] + text[i + 1:]
        elif k == 1:
            text = text[:i] + src.pick(lang.junk) + text[i:]
        elif k == 2:
            text = text[:i] + " " + src.pick(lang.junk) + " " + text[i:]
        elif k == 3:
            j = i + src.below(6)
            text = text[:i] + text[j:]
        elif k == 4:
            text = text[:i] + src.pick(lang.junk) + text[i + 1:]
        else:
            try:
                toks = lang.tokens(text)
            except Reject:
                continue
            if not toks:
                continue
            t = src.pick(toks)
            if src.below(2):
                text = text[:t[3]] + text[t[4]:]
            else:
                text = text[:t[3]] + t[1] + " " + text[t[3]:]
    return text


def ins_text(lang, kind, label):
    if label in lang.inserted:
        return lang.inserted[label]
    if kind == "text":
        if label[:1] in "'\"":
            return ast.literal_eval(label)
        return label
    return label


def edited_tokens(lang, toks, items):
    """Applies the reported operations to the token list."""
    at = {}
    starts = [tuple(t.start) for t in toks]
    for loc, _, _, op in items:
        p = starts.index(loc) if loc in starts else len(toks)
        at.setdefault(p, []).append(op)
    out = []
    i = 0
    while i <= len(toks):
        col = toks[i].start.col if i < len(toks) else -2
        skip = 0
        for op in at.get(i, ()):
            if op[0] == "ins":
                t = ins_text(lang, "lex", op[1])
                m = lang.spec.fullmatch(t)
                out.append((m.lastgroup, t, col))
            else:
                skip = op[1]
        i += skip
        if i < len(toks):
            out.append((toks[i].kind, toks[i].value, col))
        elif i == len(toks) and skip:
            # operations standing at the end itself
            for op in at.get(i, ()):
                if op[0] == "ins":
                    t = ins_text(lang, "lex", op[1])
                    out.append((lang.spec.fullmatch(t).lastgroup, t, -2))
        i += 1
    return out


def edited_text(lang, text, items):
    out = ""
    p = 0
    for loc, _, _, op in items:
        out += text[p:loc[0]] if loc[0] > p else ""
        p = max(p, loc[0])
        if op[0] == "ins":
            # on a new line, since what precedes may end in a comment
            out += "\n" + ins_text(lang, "text", op[1]) + " "
        else:
            out += "\n"
            p = loc[0] + op[1]
    return out + text[p:]


def check_invalid(lang, text, rec, recover=True):
    want = reference(lang, text)
    try:
        ntok = len(lang.tokens(text))
    except Reject:
        ntok = len(text) // 3
    for kind in ("lex", "text"):
        got, toks = run(lang, kind, text, False)
        if got[0] == "ok":
            if want != got:
                fail(lang, kind, text, "wrong verdict or value",
                     got=repr(got), want=repr(want))
        elif want[0] == "ok":
            fail(lang, kind, text, "valid document rejected",
                 got=repr(got), want=repr(want))
        rec.label("%s %s %s" % (lang.name, kind, got[0]))
        rec.case("%s|%s|%s" % (lang.name, kind, text), ntok >= 5,
                 lambda: dict(language=lang.name, document=text,
                              outcome=repr(got)[:300]))
        if not recover or got[0] == "lex":
            continue
        if kind == "text" and len(text) > 60:
            continue
        try:
            rgot, toks = run(lang, kind, text, True, True)
        except TooBig:
            rec.label("recovery too big")
            continue
        if got[0] == "ok":
            if rgot != got:
                fail(lang, kind, text, "recovery changes a valid parse",
                     got=repr(rgot), want=repr(got))
            continue
        if rgot[0] == "ok":
            fail(lang, kind, text, "recovery accepts an invalid document",
                 got=repr(rgot))
        if rgot[1][0][:3] != got[1][0][:3]:
            fail(lang, kind, text, "recovery changes the first error",
                 plain=got[2], recovering=rgot[2])
        if rgot[3] is None:
            rec.label("%s %s not repaired" % (lang.name, kind))
            continue
        if lang.layout and kind == "text":
            rec.label("%s %s repaired" % (lang.name, kind))
            continue
        try:
            if kind == "lex":
                ed = edited_tokens(lang, toks, rgot[1])
                val = lang.ref_tokens(ed)
            else:
                ed = edited_text(lang, text, rgot[1])
                val = lang.ref(ed)
        except Reject:
            fail(lang, kind, text, "the document with the reported edits "
                 "applied is not valid", report=rgot[2], edited=repr(ed),
                 repaired=repr(rgot[3][0]))
        if canon(val) != canon(rgot[3][0]):
            fail(lang, kind, text, "the repaired value is not the value of "
                 "the edited document", report=rgot[2], edited=repr(ed),
                 got=repr(rgot[3][0]), want=repr(val))
        rec.label("%s %s repaired" % (lang.name, kind))
        rec.case("%s|%s|R|%s" % (lang.name, kind, text), ntok >= 5,
                 lambda: dict(language=lang.name, document=text,
                              report=rgot[2]))


NEST = {
    "json": ("[%s]", '{"k": %s}', "[1, %s]", "[%s, {}]"),
    "arith": ("(%s)", "(%s) + 1", "2 * (%s)", "f(%s)", "-%s", "g(x, %s)"),
    "stmts": ("{ %s }", "if (x) { %s }", "while (1) {\n%s }", "; %s",
              "let f = fn(a) { %s };", "if (x) { } else { %s }"),
}


def deepen(lang, text, src, depth):
    if lang.name != "tree":
        for _ in range(depth):
            text = src.pick(NEST[lang.name]) % text
        return text
    lines = text.split("\n")
    n = src.pick((4, 4, 2, 1))
    heads = [src.pick(("a:", "k9 :", "-")) for _ in range(depth)]
    return "\n".join(
        [" " * (n * i) + h for i, h in enumerate(heads)] +
        [" " * (n * depth) + x if x.strip() else x for x in lines])


def deep_part(src, rec):
    """Documents nested far deeper than generation goes."""
    lang = src.pick(LANGS)
    text = deepen(lang, lang.gen(src, src.below(6)), src, src.rng_int(
        5, src.pick((20, 60, 200))))
    if src.chance(40):
        i = src.below(len(text) + 1)
        text = src.pick((text[:i] + text[i + 1:], text[:i],
                         text[:i] + src.pick(lang.junk) + text[i:]))
    want = reference(lang, text)
    if want[0] != "ok":
        check_invalid(lang, text, rec, False)
        return
    for kind in ("lex", "text"):
        check_valid(lang, kind, text, want, rec)
        rec.label("deep %s %s" % (lang.name, kind))
        rec.case("%s|%s|%s" % (lang.name, kind, text), True,
                 lambda: dict(language=lang.name, document=text[:600]))


def corrupted_part(src, rec):
    lang = src.pick(LANGS)
    text = lang.gen(src, src.pick((4, 8, 14)))
    if len(text) > 160:
        rec.label("document too long")
        return
    check_invalid(lang, corrupt(lang, text, src), rec)


def parts(tier):
    k = 4 if tier == "quick" else 50
    return [
        ("valid", valid_part, 3000 * k),
        ("corrupted", corrupted_part, 6000 * k),
        ("deep", deep_part, 400 * k),
    ]
