"""
Realistic languages: for each a generator of documents, an independent
implementation, and parsers written with the library (through the lexer and
scannerless).
"""
import json
import re

from .real import LX, SL


class TooBig(Exception):
    """The work budget of a parse is exhausted."""


class Counted(list):
    """A token list that bounds the work done on it."""

    left = 200000

    def __getitem__(self, i):
        self.left -= 1
        if self.left < 0:
            raise TooBig
        return list.__getitem__(self, i)


class Reject(Exception):
    pass


# ------------------------------------------------------------- generic parts


class Cursor:
    """Tokens (kind, text, column) for hand-written recursive descent."""

    def __init__(self, toks):
        self.toks = toks
        self.i = 0

    def text(self):
        return self.toks[self.i][1] if self.i < len(self.toks) else None

    def kind(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else None

    def col(self):
        return self.toks[self.i][2] if self.i < len(self.toks) else -1

    def take(self, text=None, kind=None):
        if self.i >= len(self.toks):
            raise Reject
        k, t = self.toks[self.i][:2]
        if (text is not None and t != text) or \
                (kind is not None and k != kind):
            raise Reject
        self.i += 1
        return t

    def end(self):
        if self.i != len(self.toks):
            raise Reject


class Lang:
    layout = False

    def tokens(self, text):
        """[(kind, text, column, offset, end)]"""
        out = []
        p = 0
        bol = 0
        while p < len(text):
            m = self.spec.match(text, p)
            if m is None or m.end() == p:
                raise Reject
            if m.lastgroup is not None:
                out.append((m.lastgroup, m.group(), p - bol, p, m.end()))
            nl = text.rfind("\n", p, m.end())
            if nl >= 0:
                bol = nl + 1
            p = m.end()
        return out

    def ref_tokens(self, toks):
        """Value of a token list [(kind, text, column)]; may raise Reject."""
        raise NotImplementedError

    def ref(self, text):
        return self.ref_tokens([t[:3] for t in self.tokens(text)])

    def lexed(self, text):
        return Counted(LX.split_tokens(text, self.spec))


def sep(src, nl=True):
    """White space between tokens."""
    k = src.below(8)
    if k < 4:
        return " "
    if k == 4:
        return ""
    if k == 5 and nl:
        return "\n" + " " * src.below(5)
    if k == 6:
        return "\t " if not nl else " \n\n"
    return "  "


# -------------------------------------------------------------------- JSON


class Json(Lang):
    name = "json"
    spec = re.compile(
        r"[ \t\n\r]+|(?P<punct>[{}\[\]:,])|(?P<lit>true|false|null)"
        r"|(?P<float>-?(?:0|[1-9][0-9]*)(?:\.[0-9]+(?:[eE][-+]?[0-9]+)?"
        r"|[eE][-+]?[0-9]+))|(?P<int>-?(?:0|[1-9][0-9]*))"
        r'|(?P<str>"(?:[^"\\\x00-\x1f]'
        r'|\\(?:["\\/bfnrt]|u[0-9a-fA-F]{4}))*")')
    inserted = {"int": "1", "str": '"k"'}

    ESC = {"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}

    @classmethod
    def string(cls, s):
        out = ""
        i = 1
        while i < len(s) - 1:
            c = s[i]
            if c == "\\":
                c = s[i + 1]
                i += 1
                if c == "u":
                    c = chr(int(s[i + 1:i + 5], 16))
                    i += 4
                else:
                    c = cls.ESC.get(c, c)
            out += c
            i += 1
        # json.loads joins surrogate pairs
        return out.encode("utf-16", "surrogatepass").decode(
            "utf-16", "surrogatepass")

    def lex_parser(self):
        from reparsec import Delay
        from reparsec.lexer import Token, token, token_ins
        from reparsec.sequence import eof, satisfy, sym

        def p(c):
            return sym(Token("punct", c), c)
        value = Delay()
        key = token_ins("str", '"k"').fmap(lambda t: self.string(t.value))
        lits = {"true": True, "false": False, "null": None}
        simple = (
            token_ins("int", "1").fmap(lambda t: int(t.value))
            | token("float").fmap(lambda t: float(t.value))
            | token("lit").fmap(lambda t: lits[t.value])
            | token("str").fmap(lambda t: self.string(t.value)))
        obj = ((key << p(":")) + value).sep_by(p(",")).fmap(dict).between(
            p("{"), p("}")).label("object")
        arr = value.sep_by(p(",")).between(p("["), p("]")).label("array")
        value.define((simple | obj.recover() | arr.recover()).label("value"))
        return value << eof()

    def text_parser(self):
        from reparsec import Delay
        from reparsec.scannerless import literal, regexp
        from reparsec.sequence import eof
        ws = regexp(r"[ \t\n\r]*")

        def p(c):
            return literal(c) << ws

        def rx(pat, g=0):
            return regexp(pat, g) << ws
        value = Delay()
        string = rx(r'"(?:[^"\\\x00-\x1f]|\\(?:["\\/bfnrt]'
                    r'|u[0-9a-fA-F]{4}))*"').fmap(self.string).label("string")
        number = rx(
            r"-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?").fmap(
                lambda s: float(s) if set(s) & set(".eE") else int(s)
            ).label("number")
        t = rx("true").fmap(lambda _: True)
        f = rx("false").fmap(lambda _: False)
        n = rx("null").fmap(lambda _: None)
        obj = value.between(p("{"), p("}"))
        member = string.then(p(":")).then(value).apply(
            lambda k, _, v: (k, v))
        obj = p("{") >> member.sep_by(p(",")).fmap(dict) << p("}")
        arr = p("[") >> value.sep_by(p(",")) << p("]")
        value.define(
            (number.recover_with(1, "1") | string | t | f | n
             | obj.recover() | arr.recover()).label("value"))
        return ws >> value << eof()

    def ref(self, text):
        def const(s):
            raise ValueError(s)
        try:
            return json.loads(text, parse_constant=const)
        except ValueError:
            raise Reject

    def ref_tokens(self, toks):
        return self.ref(" ".join(t[1] for t in toks))

    def gen(self, src, budget):
        left = [budget]

        def s():
            return sep(src)

        def string():
            return '"' + "".join(src.pick((
                "a", "b", "key", " ", "\\n", "\\u0041", "\\\"", "\\\\", "é",
                "\\u00e9", "/", "\\/", ":", "{", "\\ud83d\\ude00", "1", ","))
                for _ in range(src.below(5))) + '"'

        def value(depth):
            left[0] -= 1
            k = src.below(8)
            if depth <= 0 or left[0] <= 0:
                k %= 4
            if k == 0:
                return src.pick(("0", "1", "-1", "42", "1234567890", "-0"))
            if k == 1:
                return string()
            if k == 2:
                return src.pick(("true", "false", "null"))
            if k == 3:
                return src.pick(("1.5", "-0.25", "1e5", "2E-3", "0.0",
                                 "6.02e+23", "1E0"))
            n = src.below(5)
            if k < 6:
                return "[" + s() + ("," + s()).join(
                    value(depth - 1) + s() for _ in range(n)) + "]"
            return "{" + s() + ("," + s()).join(
                string() + s() + ":" + s() + value(depth - 1) + s()
                for _ in range(n)) + "}"
        return s() + value(src.rng_int(1, 6)) + s()

    junk = ("?", "tru", "nul", "01", ".", "-", "+1", "'", '"', "\\", "]", "}",
            ",", ":", "[", "{", "1", '"x"', "NaN", "Infinity", "\x0b",
            "null", "\x01", "1.", "e5", "é")


# -------------------------------------------------------------- arithmetic


PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "%": 2, "^": 4}


class Arith(Lang):
    name = "arith"
    spec = re.compile(
        r"\s+|(?P<num>[0-9]+(?:\.[0-9]+)?)|(?P<id>[a-z]+)|(?P<op>[-+*/%^])"
        r"|(?P<par>[(),])")
    inserted = {"num": "0"}

    def build(self, num, ident, op, par):
        """All pieces already skip their trailing space."""
        from reparsec import Delay
        from reparsec.sequence import eof

        def ops(cs):
            r = None
            for c in cs:
                o = op(c).fmap(lambda _, c=c: lambda a, b: (c, a, b))
                r = o if r is None else r | o
            return r
        expr = Delay()
        unary = Delay()
        call = ident + expr.sep_by(par(",")).between(
            par("("), par(")")).maybe()
        atom = num.fmap(lambda s: ("num", s)) | call.fmap(
            lambda v: ("id", v[0]) if v[1] is None
            else ("call", v[0], tuple(v[1]))
        ) | expr.between(par("("), par(")"))
        power = (atom + (op("^") >> unary).maybe()).fmap(
            lambda v: v[0] if v[1] is None else ("^", v[0], v[1]))
        unary.define(
            (op("-") >> unary).fmap(lambda v: ("neg", v)) | power)
        expr.define(unary.chainl1(ops("*/%")).chainl1(ops("+-")))
        return expr << eof()

    def lex_parser(self):
        from reparsec.lexer import Token, token, token_ins
        from reparsec.sequence import sym
        return self.build(
            token_ins("num", "0").fmap(lambda t: t.value),
            token("id").fmap(lambda t: t.value),
            lambda c: sym(Token("op", c), c),
            lambda c: sym(Token("par", c), c))

    def text_parser(self):
        from reparsec.scannerless import literal, regexp
        ws = regexp(r"\s*")
        return ws >> self.build(
            (regexp(r"[0-9]+(?:\.[0-9]+)?") << ws).recover_with("0", "0"),
            regexp(r"([a-z]+)\s*", 1),
            lambda c: literal(c) << ws,
            lambda c: literal(c) << ws)

    def ref_tokens(self, toks):
        """Operator precedence with explicit stacks."""
        out = []
        stack = []      # "(" | ("call", name, argc) | operators
        operand = True      # an operand is expected
        i = 0
        n = len(toks)

        def reduce(prec):
            while stack and isinstance(stack[-1], str) and \
                    stack[-1] != "(":
                o = stack[-1]
                q = 3 if o == "neg" else PREC[o]
                if q < prec or (o == "^" and prec == 4):
                    break
                stack.pop()
                if o == "neg":
                    out.append(("neg", out.pop()))
                else:
                    b = out.pop()
                    out.append((o, out.pop(), b))
        while i < n:
            k, t = toks[i][:2]
            if operand:
                if k == "num":
                    out.append(("num", t))
                    operand = False
                elif k == "id":
                    if i + 1 < n and toks[i + 1][1] == "(":
                        i += 1
                        stack.append(("call", t, len(out)))
                        if i + 1 < n and toks[i + 1][1] == ")":
                            i += 1
                            stack.pop()
                            out.append(("call", t, ()))
                            operand = False
                    else:
                        out.append(("id", t))
                        operand = False
                elif t == "-":
                    stack.append("neg")
                elif t == "(":
                    stack.append("(")
                else:
                    raise Reject
            else:
                if k == "op":
                    reduce(PREC[t])
                    stack.append(t)
                    operand = True
                elif t == ",":
                    reduce(0)
                    if not stack or stack[-1] == "(":
                        raise Reject
                    operand = True
                elif t == ")":
                    reduce(0)
                    if not stack:
                        raise Reject
                    o = stack.pop()
                    if o != "(":
                        args = tuple(out[o[2]:])
                        del out[o[2]:]
                        out.append(("call", o[1], args))
                else:
                    raise Reject
            i += 1
        if operand:
            raise Reject
        reduce(0)
        if stack or len(out) != 1:
            raise Reject
        return out[0]

    def gen(self, src, budget):
        left = [budget]

        def expr(depth):
            left[0] -= 1
            k = src.below(9)
            if depth <= 0 or left[0] <= 0:
                k %= 3
            if k == 0:
                return src.pick(("1", "2", "30", "4.5", "007"))
            if k == 1:
                return src.pick(("x", "y", "foo"))
            if k == 2:
                return src.pick(("0", "z", "12345"))
            if k == 3:
                return "(" + sep(src) + expr(depth - 1) + sep(src) + ")"
            if k == 4:
                return "-" + sep(src) + expr(depth - 1)
            if k == 5:
                return "f" + sep(src) + "(" + sep(src) + ("," + sep(
                    src)).join(expr(depth - 1)
                               for _ in range(src.below(4))) + ")"
            n = src.rng_int(1, 4)
            r = expr(depth - 1)
            for _ in range(n):
                r += sep(src) + src.pick("+-*/%^") + sep(src) + \
                    expr(depth - 1)
            return r
        return sep(src) + expr(src.rng_int(1, 6)) + sep(src)

    junk = ("+", "-", "*", "^", "(", ")", ",", "1", "x", "?", "1.", ".",
            "()", "2 3", "$", "//")


# -------------------------------------------------------------- statements


KW = ("let", "print", "if", "else", "while", "fn", "return")


class Stmts(Lang):
    name = "stmts"
    spec = re.compile(
        r"\s+|#[^\n]*|(?P<kw>(?:let|print|if|else|while|fn|return)\b)"
        r"|(?P<id>[A-Za-z_]\w*)|(?P<num>\d+)|(?P<op>==|[-+*/<=])"
        r"|(?P<p>[(){},;])")
    inserted = {"num": "0", "id": "v"}

    def build(self, num, ident, kw, p, op):
        from reparsec import Delay
        from reparsec.sequence import eof
        expr = Delay()
        stmt = Delay()
        block = stmt.many().between(p("{"), p("}")).fmap(
            lambda v: ("block", v))

        def binary(*cs):
            r = None
            for c in cs:
                o = op(c).fmap(lambda _, c=c: lambda a, b: (c, a, b))
                r = o if r is None else r | o
            return r
        args = expr.sep_by(p(",")).between(p("("), p(")"))
        fn = (kw("fn") >> ident.sep_by(p(",")).between(p("("), p(")"))) \
            .then(block).apply(lambda a, b: ("fn", a, b))
        atom = num.fmap(int) | ident.fmap(lambda s: ("var", s)) \
            | expr.between(p("("), p(")")) | fn
        post = (atom + args.many()).fmap(
            lambda v: v[0] if not v[1] else ("app", v[0], v[1]))
        total = post.chainl1(binary("*", "/")).chainl1(binary("+", "-"))
        expr.define((total + (binary("<", "==") + total).maybe()).fmap(
            lambda v: v[0] if v[1] is None else v[1][0](v[0], v[1][1])
        ).label("expression"))
        cond = expr.between(p("("), p(")"))
        if_ = Delay()
        if_.define(
            (kw("if") >> cond).then(block).then(
                (kw("else") >> (block | if_)).maybe()
            ).apply(lambda c, a, b: ("if", c, a, b)))
        stmt.define((
            (kw("let") >> ident << op("=")).then(expr << p(";")).apply(
                lambda n, e: ("let", n, e))
            | (kw("print") >> expr.sep_by(p(",")) << p(";")).fmap(
                lambda v: ("print", v))
            | if_
            | (kw("while") >> cond).then(block).apply(
                lambda c, b: ("while", c, b))
            | (kw("return") >> expr.maybe() << p(";")).fmap(
                lambda v: ("return", v))
            | block
            | (expr + (op("=") >> expr).maybe() << p(";")).fmap(
                lambda v: ("expr", v[0]) if v[1] is None
                else ("assign", v[0], v[1]))
            | p(";").fmap(lambda _: ("nop",))
        ).label("statement"))
        return stmt.many() << eof()

    def lex_parser(self):
        from reparsec.lexer import Token, token_ins
        from reparsec.sequence import sym
        return self.build(
            token_ins("num", "0").fmap(lambda t: t.value),
            token_ins("id", "v").fmap(lambda t: t.value),
            lambda c: sym(Token("kw", c), c),
            lambda c: sym(Token("p", c), c),
            lambda c: sym(Token("op", c), c))

    def text_parser(self):
        from reparsec.scannerless import literal, regexp
        ws = regexp(r"(?:\s|#[^\n]*(?:\n|\Z))*")
        kws = "|".join(KW)
        return ws >> self.build(
            regexp(r"\d+") << ws,
            regexp(r"(?!(?:%s)\b)[A-Za-z_]\w*" % kws) << ws,
            lambda c: regexp(c + r"\b") << ws,
            lambda c: literal(c) << ws,
            lambda c: (regexp("=(?!=)") if c == "=" else literal(c)) << ws)

    def ref_tokens(self, toks):
        c = Cursor(toks)

        def commas(item, stop):
            out = []
            if c.text() == stop:
                return out
            while True:
                out.append(item())
                if c.text() != ",":
                    return out
                c.take(",")

        def block():
            c.take("{")
            out = []
            while c.text() != "}":
                out.append(stmt())
            c.take("}")
            return ("block", out)

        def atom():
            k = c.kind()
            if k == "num":
                return int(c.take())
            if k == "id":
                return ("var", c.take())
            if c.text() == "(":
                c.take()
                e = expr()
                c.take(")")
                return e
            c.take("fn")
            c.take("(")
            ids = commas(lambda: c.take(kind="id"), ")")
            c.take(")")
            return ("fn", ids, block())

        def post():
            a = atom()
            calls = []
            while c.text() == "(":
                c.take()
                calls.append(commas(expr, ")"))
                c.take(")")
            return ("app", a, calls) if calls else a

        def level(ops, sub):
            a = sub()
            while c.text() in ops:
                o = c.take()
                a = (o, a, sub())
            return a

        def total():
            return level("+-", lambda: level("*/", post)) \
                if False else level(("+", "-"),
                                    lambda: level(("*", "/"), post))

        def expr():
            a = total()
            if c.text() in ("<", "=="):
                o = c.take()
                a = (o, a, total())
            return a

        def if_():
            c.take("if")
            c.take("(")
            e = expr()
            c.take(")")
            a = block()
            b = None
            if c.text() == "else":
                c.take()
                b = if_() if c.text() == "if" else block()
            return ("if", e, a, b)

        def stmt():
            t = c.text()
            if t == "let":
                c.take()
                n = c.take(kind="id")
                c.take("=")
                e = expr()
                c.take(";")
                return ("let", n, e)
            if t == "print":
                c.take()
                es = commas(expr, ";")
                c.take(";")
                return ("print", es)
            if t == "if":
                return if_()
            if t == "while":
                c.take()
                c.take("(")
                e = expr()
                c.take(")")
                return ("while", e, block())
            if t == "return":
                c.take()
                e = None if c.text() == ";" else expr()
                c.take(";")
                return ("return", e)
            if t == "{":
                return block()
            if t == ";":
                c.take()
                return ("nop",)
            e = expr()
            if c.text() == "=":
                c.take()
                r = expr()
                c.take(";")
                return ("assign", e, r)
            c.take(";")
            return ("expr", e)
        out = []
        while c.text() is not None:
            out.append(stmt())
        return out

    def gen(self, src, budget):
        left = [budget]

        def s():
            if src.below(30) == 0:
                return " # note ; {\n"
            return sep(src) or " "

        def args(d):
            return "(" + s() + ("," + s()).join(
                expr(d - 1) for _ in range(src.below(3))) + s() + ")"

        def expr(d):
            left[0] -= 1
            k = src.below(9)
            if d <= 0 or left[0] <= 0:
                k %= 3
            if k == 0:
                return src.pick(("0", "1", "42"))
            if k <= 2:
                return src.pick(("x", "y", "letx", "If", "v_1"))
            if k == 3:
                return "(" + s() + expr(d - 1) + s() + ")"
            if k == 4:
                return src.pick(("f", "g")) + s() + args(d)
            if k == 5 and d > 1:
                return "fn" + s() + "(" + src.pick(
                    ("", "a", "a, b", "a,b , c")) + ")" + s() + block(d - 2)
            if k == 6:
                return total(d - 1) + s() + src.pick(("<", "==")) + s() + \
                    total(d - 1)
            return total(d)

        def total(d):
            n = src.rng_int(0, 3)
            r = simple(d - 1)
            for _ in range(n):
                r += s() + src.pick("+-*/") + s() + simple(d - 1)
            return r

        def simple(d):
            k = src.below(4)
            if k == 3 and d > 0 and left[0] > 0:
                return "(" + expr(d - 1) + ")" + (
                    args(d - 1) if src.below(3) == 0 else "")
            return src.pick(("1", "x", "foo", "7"))

        def block(d):
            return "{" + s() + s().join(
                stmt(d - 1) for _ in range(src.below(4))) + s() + "}"

        def if_(d):
            r = "if" + s() + "(" + expr(d - 1) + ")" + s() + block(d - 1)
            if src.below(2):
                r += s() + "else" + s() + (
                    if_(d - 1) if src.below(3) == 0 and d > 1
                    else block(d - 1))
            return r

        def stmt(d):
            left[0] -= 1
            k = src.below(9)
            if d <= 0 or left[0] <= 0:
                k %= 4
            if k == 0:
                return ";"
            if k == 1:
                return src.pick(("x", "f")) + s() + (
                    "=" + s() + expr(d) if src.below(2) else args(d)) + ";"
            if k == 2:
                return "let" + " " + s() + "x" + s() + "=" + s() + \
                    expr(d) + s() + ";"
            if k == 3:
                return "print" + s() + ("," + s()).join(
                    expr(d) for _ in range(src.below(4))) + s() + ";"
            if k == 4:
                return if_(d)
            if k == 5:
                return "while" + s() + "(" + expr(d - 1) + ")" + s() + \
                    block(d - 1)
            if k == 6:
                return "return" + s() + (expr(d) if src.below(2) else "") \
                    + ";"
            if k == 7:
                return block(d)
            return expr(d) + ";"
        return s() + s().join(
            stmt(src.rng_int(1, 5)) for _ in range(src.rng_int(1, 4))) + s()

    junk = (";", "{", "}", "(", ")", ",", "=", "==", "let", "if", "else",
            "fn", "print", "1", "x", "+", "<", "?", "while", "return",
            "let x", "}}", "elsex")


# ------------------------------------------------------------ indentation


class Tree(Lang):
    """key: scalar | key: (newline) mapping indented by 4"""

    name = "tree"
    layout = True
    spec = re.compile(
        r"\s+|#[^\n]*|(?P<key>[a-z]\w*)|(?P<num>\d+)|(?P<str>'[^'\n]*')"
        r"|(?P<p>[-:,\[\]])")
    inserted = {"num": "0", "key": "k"}

    def build(self, key, num, string, p):
        from reparsec import Delay
        from reparsec.layout import aligned, block, indented
        from reparsec.sequence import eof
        value = Delay()
        flow = Delay()
        pair = (key << p(":")) + value
        item = p("-") >> value
        pairs = (pair + aligned(pair).many()).fmap(
            lambda v: ("map", [v[0]] + v[1]))
        items = (item + aligned(item).many()).fmap(
            lambda v: ("seq", [v[0]] + v[1]))
        flow.define(
            num | string | flow.sep_by(p(",")).between(p("["), p("]")))
        value.define(flow | indented(4, pairs | items))
        return block((pairs | items).maybe()) << eof()

    def lex_parser(self):
        from reparsec.lexer import Token, token, token_ins
        from reparsec.sequence import sym
        return self.build(
            token_ins("key", "k").fmap(lambda t: t.value),
            token_ins("num", "0").fmap(lambda t: int(t.value)),
            token("str").fmap(lambda t: t.value),
            lambda c: sym(Token("p", c), c))

    def text_parser(self):
        from reparsec.scannerless import literal, regexp
        ws = regexp(r"(?:\s|#[^\n]*(?:\n|\Z))*")
        return ws >> self.build(
            regexp(r"[a-z]\w*") << ws,
            (regexp(r"\d+").fmap(int) << ws).recover_with(0, "0"),
            regexp(r"'[^'\n]*'") << ws,
            lambda c: literal(c) << ws)

    def ref_tokens(self, toks):
        c = Cursor(toks)

        def flow():
            k = c.kind()
            if k == "num":
                return int(c.take())
            if k == "str":
                return c.take()
            c.take("[")
            out = []
            if c.text() != "]":
                out.append(flow())
                while c.text() == ",":
                    c.take()
                    out.append(flow())
            c.take("]")
            return out

        def value(mark):
            if c.kind() in ("num", "str") or c.text() == "[":
                return flow()
            if c.col() != mark + 4:
                raise Reject
            return coll(mark + 4)

        def coll(mark):
            out = []
            if c.kind() == "key":
                while True:
                    k = c.take()
                    c.take(":")
                    out.append((k, value(mark)))
                    if c.kind() != "key" or c.col() != mark:
                        return ("map", out)
            while True:
                c.take("-")
                out.append(value(mark))
                if c.text() != "-" or c.col() != mark:
                    return ("seq", out)
        if not toks:
            return None
        if c.kind() != "key" and c.text() != "-":
            raise Reject
        r = coll(c.col())
        c.end()
        return r

    def gen(self, src, budget):
        left = [budget]
        lines = []

        def scalar(d=2):
            k = src.below(5)
            if k == 4 and d > 0:
                return "[" + src.pick(("", " ")) + ", ".join(
                    scalar(d - 1) for _ in range(src.below(3))) + "]"
            return src.pick(("1", "'a b'", "23", "''"))

        def coll(col, depth):
            seq = src.chance(30)
            for _ in range(src.rng_int(1, 4)):
                left[0] -= 1
                head = "-" if seq else src.pick(
                    ("a", "bb", "key", "x9")) + src.pick(("", " ")) + ":"
                if depth <= 0 or left[0] <= 0 or src.below(2):
                    v = scalar()
                    lines.append(" " * col + head + (
                        "\n" + " " * src.below(7) if src.below(12) == 0
                        else " ") + v)
                else:
                    lines.append(" " * col + head)
                    if seq and src.below(3) == 0:
                        lines.pop()
                        lines.append(" " * col + head + "   " + "k: 1")
                        continue
                    coll(col + 4, depth - 1)
                if src.below(8) == 0:
                    lines.append(src.pick(("", "   ", "# c: d")))
        coll(src.below(3), src.rng_int(0, 4))
        return "\n" * src.below(2) + "\n".join(lines) + "\n" * src.below(2)

    junk = (":", "-", "a", "1", "'s'", "\n", "    ", " ", "\n    ", "b: 1",
            "?", ",", "[", "]", "\n  ")


LANGS = (Json(), Arith(), Stmts(), Tree())
