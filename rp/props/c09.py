"""C09: the lexer splits text exactly as the specification says."""
import re

from ..engine import Discard, Violation
from ..grammar import ODD_CHARS
from ..real import LX, text_loc, tok_locs

RULE = (
    "a case is a random specification (ordered alternatives of named, "
    "unnamed, nested, optional, look-around and possibly empty groups, with "
    "flags) and a source text made of its own samples and junk; tokens, "
    "locations and LexError are compared with a character-counting reference "
    "tokenizer, a quarter of them again after related calls and changes to "
    "the returned list; non-trivial: two or more tokens, or a LexError after at "
    "least one match"
)

# (pattern body, samples); {n} is replaced by a fresh group name
PIECES = (
    (r"(?P<{n}>\d+)", ("1", "42", "007")),
    (r"(?P<{n}>[a-z]+)", ("a", "ab", "xyz")),
    (r"(?P<{n}>[-+*/(),:;=])", ("+", "(", ",")),
    (r"\s+", (" ", "\n", "  \n ", "\t")),
    (r"[ \t]+", (" ", "\t ")),
    (r"(?P<{n}>\n)", ("\n",)),
    (r"(?P<{n}>\n[ ]*)", ("\n", "\n  ")),
    (r"#[^\n]*", ("#", "# x", "#é")),
    (r'"(?P<{n}>[^"]*)"', ('"q"', '""', '"a\nb"')),
    (r"(?P<{n}>'(?:[^'\\]|\\.)*')", ("'a'", "'\\''", "''")),
    (r"(?P<{n}>\d+)(?P<{m}>[eE]\d+)?", ("1", "2e3")),
    (r"(?P<{n}>(-)?(\d+)(\.\d+)?)", ("-1", "2.5", "3")),
    (r"(?P<{n}>if|else)", ("if", "else")),
    (r"(?P<{n}>==?)", ("=", "==")),
    (r"(?P<{n}>a)(b)?", ("a", "ab")),
    (r"(x)(?P<{n}>y)", ("xy",)),
    (r"(?P<{n}>(?P<{m}>q)r)", ("qr",)),
    (r"(?:(?P<{n}>k)|(?P<{m}>l))m", ("km", "lm")),
    (r"(?=z)(?P<{n}>z)", ("z",)),
    (r"(?P<{n}>[^\W\d_]+)", ("é", "мир", "a")),
    (r"(?P<{n}>.)", ("~", "é")),
    (r"(?P<{n}>)w", ("w",)),
    (r"(?P<{n}>(?<=\n)h)", ("h",)),
    (r"(?P<{n}>^s)", ("s",)),
    (r"(?P<{n}>t\b)", ("t",)),
    (r"/\*(?:[^*]|\*(?!/))*\*/", ("/**/", "/* a\n b */")),
    (r"(?P<{n}>\r\n|\r)", ("\r", "\r\n")),
    (r"(?P<{n}>[^\x00-\x7f])", ODD_CHARS),
    (r"(?P<{n}>[\x00-\x08\x0e-\x1f\ufeff])", ("\0", "\ufeff", "\x1a")),
    (r"[^\w\s]", ("\0", "\ufeff", "~", "\u200b")),
)
EMPTY = (
    (r"\s*", (" ", "")),
    (r"(?P<{n}>u*)", ("u", "")),
    (r"(?P<{n}>)", ("",)),
    (r"(?=v)", ("",)),
    (r"(?P<{n}>\b)", ("",)),
    (r"$", ("",)),
)
NAMES = ("num", "id", "op", "ws", "nl", "kind", "value", "a", "b", "_x", "é",
         "start", "bad", "T1", "if_", "n11", "n12", "n13", "n14", "n15",
         "n16")
LIKE = (
    lambda s: s + "_x", lambda s: s + "2", lambda s: "_" + s,
    lambda s: s.upper(), lambda s: s.lower(), lambda s: s.swapcase(),
    lambda s: s[:-1], lambda s: s[1:], lambda s: s + s, lambda s: s + "s",
)
FLAGS = ((12, 0), (2, re.I), (2, re.M), (2, re.S), (1, re.A), (1, re.X))


def reference(text, spec):
    names = {i: n for n, i in spec.groupindex.items()}
    toks = []
    p = 0
    steps = 0
    while p < len(text):
        m = spec.match(text, p)
        if m is None or m.end() == p:
            return toks, text_loc(text, p), steps
        steps += 1
        if m.lastindex is not None and m.lastindex in names:
            n = names[m.lastindex]
            toks.append((n, m[n], text_loc(text, p), text_loc(text, m.end())))
        p = m.end()
    return toks, None, steps


def tok(t):
    return (t.kind, t.value, tuple(t.start), tuple(t.end))


def new_name(src, used):
    """A group name, sometimes one that looks like one in use."""
    for _ in range(4):
        if used and src.chance(30):
            s = src.pick(LIKE)(src.pick(used))
        else:
            s = src.pick(NAMES)
        if s.isidentifier() and s not in used and s != "all":
            used.append(s)
            return s
    s = next(s for s in NAMES if s not in used)
    used.append(s)
    return s


def spec_for(src):
    n = src.rng_int(1, 8)
    pieces = [src.pick(PIECES) for _ in range(n)]
    if src.chance(12):
        pieces.insert(src.below(n + 1), src.pick(EMPTY))
    if src.chance(40):
        pieces.append(PIECES[3])
    pat = []
    samples = []
    used = []
    for body, s in pieces:
        for key in ("{n}", "{m}"):
            if key in body:
                body = body.replace(key, new_name(src, used))
        pat.append(body)
        samples += s
    text = "|".join(pat)
    if src.chance(8):
        text = "(?:%s)" % text
    elif src.chance(5):
        text = "(?P<all>%s)" % text
    try:
        return re.compile(text, src.weighted(FLAGS)), samples
    except re.error:
        raise Discard("bad specification")


def check(spec, text, rec, what=None):
    """Returns the list of tokens, or None."""
    toks, err, steps = reference(text, spec)
    got = None

    def fail(msg, **kw):
        if what is not None:
            kw["after"] = what
        raise Violation(msg, dict(
            spec=spec.pattern, flags=int(spec.flags), source=text, **kw))

    try:
        got = LX.split_tokens(text, spec)
    except LX.LexError as e:
        if err is None:
            fail("LexError on tokenizable source", got=repr(e.loc))
        if tuple(e.loc) != err:
            fail("LexError at a wrong location", got=repr(tuple(e.loc)),
                 want=repr(err))
        if str(e) != "Lexing error at %d:%d" % (err[1] + 1, err[2] + 1):
            fail("wrong LexError message", got=str(e))
        rec.label("LexError")
    except Exception as e:
        fail("%s instead of tokens" % type(e).__name__, got=str(e)[:300])
    else:
        if err is not None:
            fail("no LexError although the specification does not match at "
                 "%r" % (err,), got=repr([tok(t) for t in got])[:500])
        if type(got) is not list or [tok(t) for t in got] != toks:
            fail("wrong tokens", got=repr([tok(t) for t in got])[:800],
                 want=repr(toks)[:800])
        rec.label("tokens %s" % (len(toks) if len(toks) < 4 else "4+"))
    rec.case("%s|%d|%s" % (spec.pattern, spec.flags, text),
             len(toks) > 1 or (err is not None and steps > 0),
             lambda: {"spec": spec.pattern, "source": text,
                      "tokens": len(toks), "error": repr(err)})
    return got


def again(src, spec, text, got, rec):
    """Once more, after something that must make no difference."""
    if got:
        k = src.below(4)
        if k == 0:
            got.pop(src.below(len(got)))
        elif k == 1:
            got.reverse()
        elif k == 2:
            got.append(got[0])
        else:
            got.clear()
        what = "changing the list of tokens of the same source"
    else:
        what = "the same"
    k = src.below(5)
    if k == 0:
        other = text[:src.below(len(text) + 1)]
        check(spec, other, rec, what)
        what = "a beginning of it"
    elif k == 1 and text:
        i = src.below(len(text))
        other = text[:i] + src.pick(("~", "\n", "a", "0")) + text[i + 1:]
        check(spec, other, rec, what)
        what = "another of the same length"
    elif k == 2:
        try:
            s2 = re.compile(spec.pattern, (spec.flags & ~re.U) ^ src.pick(
                (re.I, re.S, re.M)))
        except (re.error, ValueError):
            return
        check(s2, text, rec, what)
        what = "the same pattern with other flags"
    check(spec, text, rec, what)


def random_part(src, rec):
    spec, samples = spec_for(src)
    for _ in range(4):
        n = src.size(8, 120, 6)
        text = "".join(
            src.pick(samples) if src.below(10) else src.pick(
                ODD_CHARS if src.chance(30) else (" ", "\n", "~", "é", "\r\n", "0", '"', "A", "\x0b", "\u2028",
                 "x\n"))
            for _ in range(n))
        got = check(spec, text, rec)
        if src.chance(25):
            again(src, spec, text, got, rec)


def long_part(src, rec):
    """Many lines, long lines."""
    spec = re.compile(r"(?P<w>\w+)|(?P<nl>\n)|(?P<s>'[^']*')|[ \t\r]+")
    words = ("a", "abc", "\n", "\n", " ", "'x\ny'", "\t", "w" * 50,
             "'" + "\n" * 5 + "'", "\r\n")
    if src.chance(15):
        big = src.rng_int(100, 6000)
        words += ("w" * big, "'" + " \n" * (big // 2) + "'", " " * big)
    text = "".join(src.pick(words) for _ in range(
        src.rng_int(1, 300 if len(words) < 11 else 12)))
    if src.chance(30):
        text += src.pick(("!", "'", "?\n"))
    check(spec, text, rec)


def huge_part(src, rec):
    """Very many tokens, lines or characters."""
    spec = re.compile(r"(?P<w>\w+)|(?P<nl>\n)|(?P<s>'[^']*')|[ \t\r]+")
    words = ("a ", "ab\n", "\n", "'x\ny'", "\t", "b\n")
    row = "".join(src.pick(words) for _ in range(src.rng_int(1, 12)))
    n = src.rng_int(20000, 110000)
    k = src.below(4)
    if k == 0:
        text = "a " + src.pick(("w", " ", "\n")) * n + " b\nc"
    elif k == 1:
        text = "x" + "'" + src.pick(("q", "\n", "q\n")) * n + "'y z"
    else:
        text = row * (n // len(row))
    if src.chance(40):
        text += src.pick(("!", "'", "?\n"))
    d = dict(size=len(text), start=text[:40], end=text[-20:])
    want, bad = tok_locs(text, spec)
    try:
        got = [(t.kind, t.value, tuple(t.start), tuple(t.end))
               for t in LX.split_tokens(text, spec)]
    except LX.LexError as e:
        if bad is None or tuple(e.loc) != bad:
            raise Violation("wrong LexError on a long text", dict(
                d, got=repr(e.loc), want=repr(bad)))
    else:
        if bad is not None:
            raise Violation("no LexError on a long text", d)
        if got != want:
            i = 0
            while i < min(len(got), len(want)) and got[i] == want[i]:
                i += 1
            raise Violation("wrong tokens on a long text", dict(
                d, index=i, got=repr(got[i:i + 1])[:300],
                want=repr(want[i:i + 1])[:300], count=len(got)))
    rec.label("huge text")
    rec.case("huge|%r" % sorted(d.items()), True, d)


huge_part.may_be_slow = 8.0


def parse_part(src, rec):
    """token() and token_ins() select by kind; equality ignores location."""
    spec, samples = spec_for(src)
    text = "".join(src.pick(samples) for _ in range(src.rng_int(0, 5)))
    toks, err, _ = reference(text, spec)
    if err is not None:
        return
    from reparsec import ParseError
    kind = src.pick(sorted(spec.groupindex) or ["k"])
    if src.chance(25):
        kind = src.pick(LIKE)(kind)

    def fail(msg, **kw):
        raise Violation(msg, dict(spec=spec.pattern, source=text, kind=kind,
                                  **kw))

    real = LX.split_tokens(text, spec)
    for p in (LX.token(kind), LX.token_ins(kind, "zz")):
        try:
            v = LX.parse(p, real).unwrap()
        except ParseError as e:
            if toks and toks[0][0] == kind:
                fail("matching token rejected")
            loc = (toks[0][2] if toks else (0, 0, 0))
            if (tuple(e.errors[0].loc), list(e.errors[0].expected)) != (
                    loc, [kind]):
                fail("wrong error", got=str(e))
        else:
            if not toks or toks[0][0] != kind or v is not real[0]:
                fail("wrong token accepted", got=repr(v))
    for t in real:
        same = LX.Token(t.kind, t.value)
        if not (same == t and hash(same) == hash(t)):
            fail("tokens differ by location only but are not equal")
        if not tuple(same.start) == tuple(same.end) == (0, 0, 0):
            fail("a token made without locations is not at the origin",
                 got=repr((same.start, same.end)))
        if LX.Token(t.kind + "x", t.value) == t or \
                LX.Token(t.kind, t.value + "x") == t:
            fail("different tokens are equal")
    rec.label("token parsers")
    rec.case("p|%s|%s|%s" % (spec.pattern, text, kind), len(toks) > 0,
             lambda: {"spec": spec.pattern, "source": text, "kind": kind})


def parts(tier):
    k = 4 if tier == "quick" else 50
    return [
        ("specifications", random_part, 16000 * k),
        ("long", long_part, 1500 * k),
        ("huge", huge_part, 8 * k),
        ("token parsers", parse_part, 4000 * k),
    ]
