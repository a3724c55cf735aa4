"""
Reference interpreter: what parsing a stream with a grammar must yield.

Written as pure functions over immutable values; expected-token lists are
plain tuples, locations are stream positions, and the column of a position is
recomputed from the text every time.  It shares nothing with the code under
test.

plain(...)    without error recovery
recovering(...) with error recovery
"""
import re

from .grammar import (
    bind_key, canon, fmap_fn, pred_fn, rwf_value, Op
)


MAX_DEPTH = 300     # nesting the explored cases may reach


class OutOfFuel(Exception):
    """The case is too big or too deeply nested to be explored."""


class Undef(Exception):
    """A reference without a definition was reached."""


class Ill(Exception):
    """Repetition over a parser that accepted empty input."""


class Ok:
    __slots__ = ("v", "p", "exp", "con")

    def __init__(self, v, p, exp=(), con=False):
        self.v = v
        self.p = p
        self.exp = exp
        self.con = con


class Er:
    """Failure at position `at`."""
    __slots__ = ("at", "exp", "con")

    def __init__(self, at, exp=(), con=False):
        self.at = at
        self.exp = exp
        self.con = con


class Rec:
    """Failure with candidate repairs."""
    __slots__ = ("reps", "at", "exp", "con")

    def __init__(self, reps, at, exp=(), con=False):
        self.reps = reps
        self.at = at
        self.exp = exp
        self.con = con


class Rep:
    """
    One candidate: total edit cost, whether it may start at a choice point
    after the first alternative (opt), insertions left at the current point,
    ops, then the usual success fields.
    """
    __slots__ = ("cost", "opt", "left", "ops", "v", "p", "exp", "con")

    def __init__(self, cost, opt, left, ops, v, p, exp, con):
        self.cost = cost
        self.opt = opt
        self.left = left
        self.ops = ops
        self.v = v
        self.p = p
        self.exp = exp
        self.con = con


# op: (kind, arg, at, exp, con)


class Interp:
    def __init__(self, g, stream, col=None, fuel=20000, tok_cls=None,
                 tok_loc=None, loc_cls=None):
        self.g = g
        self.s = stream
        self.n = len(stream)
        self.col = col or (lambda p: 0)
        self.fuel = fuel
        self.steps = 0
        self.depth = 0
        self.max_depth = MAX_DEPTH
        self.tok_cls = tok_cls
        self.tok_loc = tok_loc
        self.re_cache = {}

    def tick(self):
        self.steps += 1
        if self.steps > self.fuel:
            raise OutOfFuel()

    # ---- terminals: (matched?, value, end) at p
    def term(self, n, p):
        k, a, s = n.kind, n.args, self.s
        if k == "literal":
            e = p + len(a[0])
            if s[p:e] == a[0]:
                return (a[0], e)
            return None
        if k == "regexp":
            key = (id(n), p)
            if key in self.re_cache:
                return self.re_cache[key]
            m = re.compile(a[0]).match(s, p)
            r = None
            if m is not None and m.group(a[1]) is not None:
                r = (m.group(a[1]), m.end())
            self.re_cache[key] = r
            return r
        if p >= self.n:
            return None
        t = s[p]
        if k == "sym":
            ok = t == a[0]
        elif k == "satisfy":
            if a[0][0] == "val" and not isinstance(a[0], str):
                ok = t.value == a[0][1]
            else:
                ok = pred_fn(a[0])(t)
        elif k == "letter":
            ok = t.isalpha()
        elif k == "digit":
            ok = t.isdigit()
        elif k in ("token", "token_ins"):
            ok = t.kind == a[0]
        elif k == "symtok":
            ok = t.kind == a[0] and t.value == a[1]
        else:
            raise AssertionError(k)
        return (t, p + 1) if ok else None

    @staticmethod
    def describe(n):
        """What an error at a terminal says was expected."""
        k, a = n.kind, n.args
        if k == "sym":
            return (repr(a[0]) if a[1] is None else a[1],)
        if k == "symtok":
            return (a[2] if a[2] is not None else
                    "Token(kind=%r, value=%r)" % (a[0], a[1]),)
        if k == "literal":
            return (repr(a[0]),)
        if k in ("letter", "digit"):
            return (k,)
        if k in ("token", "token_ins"):
            return (a[0],)
        return ()

    def merge(self, n):
        k = n.kind
        if k == "seq":
            return lambda x, y: (x, y)
        if k == "seql":
            return lambda x, y: x
        return lambda x, y: y

    # ------------------------------------------------------------ plain
    def F(self, n, p, mark):
        self.tick()
        self.depth += 1
        if self.depth > self.max_depth:
            raise OutOfFuel()
        r = self.F_(n, p, mark)
        self.depth -= 1
        return r

    def F_(self, n, p, mark):
        k, a = n.kind, n.args
        if k in TERMINALS:
            r = self.term(n, p)
            if r is None:
                return Er(p, self.describe(n))
            return Ok(r[0], r[1], (), r[1] != p)
        if k in ("seq", "seql", "seqr"):
            return self.fseq(a[0], lambda v: a[1], self.merge(n), p, mark)
        if k == "alt":
            x = self.F(a[0], p, mark)
            if type(x) is Ok or x.con:
                return x
            y = self.F(a[1], p, mark)
            if y.con:
                return y
            if type(y) is Ok:
                return Ok(y.v, y.p, x.exp + y.exp, False)
            return Er(x.at, x.exp + y.exp)
        if k == "maybe":
            x = self.F(a[0], p, mark)
            if type(x) is Er and not x.con:
                return Ok(None, p, x.exp)
            return x
        if k == "many":
            return self.fmany(a[0], p, mark)
        if k == "attempt":
            x = self.F(a[0], p, mark)
            return Er(x.at, x.exp) if type(x) is Er else x
        if k == "label":
            x = self.F(a[0], p, mark)
            if not x.con:
                x = Ok(x.v, x.p, (a[1],)) if type(x) is Ok \
                    else Er(x.at, (a[1],))
            return x
        if k == "fmap":
            x = self.F(a[0], p, mark)
            if type(x) is Ok:
                return Ok(fmap_fn(a[1])(x.v), x.p, x.exp, x.con)
            return x
        if k == "bind":
            return self.fseq(a[0], self.pick(a[1]), lambda x, y: y, p, mark)
        if k in ("recover", "recover_with", "recover_with_fn"):
            return self.F(a[0], p, mark)
        if k == "ref":
            if self.g.rules[a[0]] is None:
                raise Undef()
            return self.F(self.g.rules[a[0]], p, mark)
        if k == "eof":
            return Ok(None, p) if p == self.n else Er(p, ("end of file",))
        if k == "pure":
            return Ok(a[0], p)
        if k == "purefn":
            return Ok(["pf", a[0]], p)
        if k == "unexpected":
            return Er(p, (a[0],))
        if k == "tuple":
            return self.fmapr(self.F(tuple_tree(n), p, mark),
                              tuple_fn(n))
        if k in DERIVED:
            node, fn = DERIVED[k](n)
            return self.fmapr(self.F(node, p, mark), fn)
        if k == "block":
            return self.F(a[0], p, self.col(p))
        if k == "aligned":
            if self.col(p) == mark:
                return self.F(a[0], p, mark)
            return Er(p, ("indentation",))
        if k == "indented":
            if self.col(p) == mark + a[0]:
                return self.F(a[1], p, self.col(p))
            return Er(p, ("indentation",))
        raise AssertionError(k)

    @staticmethod
    def fmapr(x, fn):
        if type(x) is Ok:
            return Ok(fn(x.v), x.p, x.exp, x.con)
        return x

    def pick(self, table):
        return lambda v: table[bind_key(canon(v), len(table))]

    def fseq(self, first, second, merge, p, mark):
        x = self.F(first, p, mark)
        if type(x) is Er:
            return x
        y = self.F(second(x.v), x.p, mark)
        exp = y.exp if y.con else x.exp + y.exp
        con = x.con or y.con
        if type(y) is Er:
            return Er(y.at, exp, con)
        return Ok(merge(x.v, y.v), y.p, exp, con)

    def fmany(self, item, p, mark):
        vs = []
        start = p
        exp = ()
        while True:
            x = self.F(item, p, mark)
            if type(x) is Er:
                if x.con:
                    return x
                return Ok(vs, p, exp + x.exp, p != start)
            if not x.con:
                raise Ill()
            vs.append(x.v)
            p = x.p
            exp = x.exp

    # ------------------------------------------------------- recovering
    # rem is None: only commit, do not repair at the current point
    def R(self, n, p, mark, ins, rem):
        self.tick()
        self.depth += 1
        if self.depth > self.max_depth:
            raise OutOfFuel()
        r = self.R_(n, p, mark, ins, rem)
        self.depth -= 1
        return r

    def R_(self, n, p, mark, ins, rem):
        k, a = n.kind, n.args
        if k in TERMINALS:
            return self.rterm(n, p, ins, rem)
        if k in ("seq", "seql", "seqr"):
            return self.rseq(a[0], lambda v: a[1], self.merge(n), p, mark,
                             ins, rem)
        if k == "bind":
            return self.rseq(a[0], self.pick(a[1]), lambda x, y: y, p, mark,
                             ins, rem)
        if k == "alt":
            return self.ralt(a[0], a[1], p, mark, ins, rem)
        if k == "maybe":
            x = self.R(a[0], p, mark, ins, None)
            if x.con or type(x) is Ok:
                return x
            return Ok(None, p, x.exp)
        if k == "many":
            return self.rmany(a[0], p, mark, ins)
        if k == "attempt":
            if rem is not None:
                return self.R(a[0], p, mark, ins, rem)
            x = self.F(a[0], p, mark)
            return Er(x.at, x.exp) if type(x) is Er else x
        if k == "label":
            return relabel(self.R(a[0], p, mark, ins, rem), (a[1],))
        if k == "fmap":
            return rmap(self.R(a[0], p, mark, ins, rem), fmap_fn(a[1]))
        if k == "recover":
            x = self.R(a[0], p, mark, ins, rem)
            if type(x) is Rec:
                x = Rec([Rep(r.cost, True, r.left, r.ops, r.v, r.p, r.exp,
                             r.con) for r in x.reps], x.at, x.exp, x.con)
            return x
        if k == "recover_with":
            return self.ruser(
                self.R(a[0], p, mark, ins, rem), p, rem,
                lambda: a[1],
                lambda v: repr(v) if a[2] is None else a[2])
        if k == "recover_with_fn":
            return self.ruser(
                self.R(a[0], p, mark, ins, rem), p, rem,
                lambda: rwf_value(a[1], self.n, p),
                lambda v: repr(v) if a[2] is None else a[2])
        if k == "ref":
            if self.g.rules[a[0]] is None:
                raise Undef()
            return self.R(self.g.rules[a[0]], p, mark, ins, rem)
        if k == "eof":
            if p == self.n:
                return Ok(None, p)
            if rem is None:
                return Er(p, ("end of file",))
            return Rec([Rep(self.n - p, True, ins,
                            (("skip", self.n - p, p, ("end of file",),
                              False),),
                            None, self.n, (), False)],
                       p, ("end of file",))
        if k in ("pure", "purefn", "unexpected"):
            return self.F(n, p, mark)
        if k == "tuple":
            return rmap(self.R(tuple_tree(n), p, mark, ins, rem),
                        tuple_fn(n))
        if k in DERIVED:
            node, fn = DERIVED[k](n)
            return rmap(self.R(node, p, mark, ins, rem), fn)
        if k == "block":
            return self.R(a[0], p, self.col(p), ins, rem)
        if k == "aligned":
            if self.col(p) == mark:
                return self.R(a[0], p, mark, ins, rem)
            return Er(p, ("indentation",))
        if k == "indented":
            if self.col(p) == mark + a[0]:
                return self.R(a[1], p, self.col(p), ins, rem)
            return Er(p, ("indentation",))
        raise AssertionError(k)

    def ins_value(self, n, p):
        """Value a terminal inserts, or None when it cannot insert."""
        k, a = n.kind, n.args
        if k == "sym" or k == "literal":
            return (a[0],)
        if k == "symtok":
            return (self.tok_cls(a[0], a[1]),)
        return None

    def rterm(self, n, p, ins, rem):
        k, a = n.kind, n.args
        exp = self.describe(n)
        r = self.term(n, p)
        if r is not None:
            return Ok(r[0], r[1], (), r[1] != p)
        if rem is None:
            return Er(p, exp)
        reps = []
        iv = self.ins_value(n, p)
        if iv is not None and rem > 0:
            reps.append(Rep(1, False, rem - 1,
                            (("ins", exp[0], p, exp, False),),
                            iv[0], p, (), True))
        for q in range(p + 1, self.n):
            r = self.term(n, q)
            if r is not None:
                reps.append(Rep(q - p, True, ins,
                                (("skip", q - p, p, exp, False),),
                                r[0], r[1], (), True))
                break
        if iv is None and not reps:
            base = Er(p, exp)
        else:
            base = Rec(reps, p, exp)
        if k == "token_ins":
            loc = self.tok_loc(p)
            base = self.ruser(
                base, p, rem,
                lambda: self.tok_cls(a[0], a[1], loc, loc),
                lambda v: a[0])
        return base

    def ruser(self, x, p, rem, value, label):
        if rem is None or type(x) is Ok or x.con or rem <= 0:
            return x
        v = value()
        rep = Rep(1, True, rem - 1, (("ins", label(v), p, x.exp, False),),
                  v, p, (), True)
        if type(x) is Er:
            return Rec([rep], p, x.exp)
        return Rec([rep] + x.reps, p, x.exp)

    def rseq(self, first, second, merge, p, mark, ins, rem):
        x = self.R(first, p, mark, ins, rem)
        if type(x) is Er:
            return x
        if type(x) is Rec:
            return self.cont(
                x, ins,
                lambda r: self.R(second(r.v), r.p, mark, ins, r.left),
                merge)
        y = self.R(second(x.v), x.p, mark, ins, ins if x.con else rem)
        return prepend(rmap(y, lambda v: merge(x.v, v)), x.exp, x.con)

    def ralt(self, a, b, p, mark, ins, rem):
        x = self.R(a, p, mark, ins, None)
        if type(x) is Ok or x.con:
            return x
        y = self.R(b, p, mark, ins, None)
        if y.con:
            return y
        exp = x.exp + y.exp
        if type(y) is Ok:
            return Ok(y.v, y.p, exp, False)
        if rem is not None:
            rx = self.R(a, p, mark, ins, rem)
            ry = self.R(b, p, mark, ins, rem)
            if type(rx) is Rec and type(ry) is Rec:
                reps = rx.reps + [r for r in ry.reps if r.opt]
                if rx.con:
                    j = Rec(reps, rx.at, rx.exp, True)
                elif ry.con:
                    j = Rec(reps, ry.at, ry.exp, True)
                else:
                    j = Rec(reps, rx.at, exp, False)
                return relabel(j, exp)
            if type(rx) is Rec:
                return relabel(rx, exp)
            if type(ry) is Rec:
                return relabel(ry, exp)
        return Er(x.at, exp)

    def rmany(self, item, p, mark, ins):
        vs = []
        start = p
        exp = ()
        while True:
            x = self.R(item, p, mark, ins, None)
            if type(x) is not Ok:
                break
            if not x.con:
                raise Ill()
            vs.append(x.v)
            p = x.p
            exp = x.exp
        if type(x) is Rec:
            self.depth += 3         # one level per error, in the code too
            if self.depth > self.max_depth:
                raise OutOfFuel()
            r = self.cont(
                x, ins, lambda r: self.rmany(item, r.p, mark, ins),
                lambda v, rest: vs + [v] + rest)
            self.depth -= 3
            return r
        if x.con:
            return x
        return Ok(vs, p, exp + x.exp, p != start)

    def cont(self, x, ins, go, merge):
        """Continue after each candidate repair; dead ends are dropped."""
        reps = []
        for r in x.reps:
            self.tick()
            y = go(r)
            if type(y) is Ok:
                reps.append(Rep(
                    r.cost, r.opt, r.left if y.p == r.p else ins, r.ops,
                    merge(r.v, y.v), y.p,
                    y.exp if y.con else r.exp + y.exp, r.con or y.con))
            elif type(y) is Rec:
                for q in y.reps:
                    self.tick()
                    ops = r.ops + tuple([
                        o if o[4] else
                        (o[0], o[1], o[2], r.exp + o[3], r.con)
                        for o in q.ops])
                    reps.append(Rep(
                        r.cost + q.cost, r.opt, q.left, ops,
                        merge(r.v, q.v), q.p,
                        q.exp if q.con else r.exp + q.exp, r.con or q.con))
        return Rec(reps, x.at, x.exp, x.con)


def rmap(x, fn):
    if type(x) is Ok:
        return Ok(fn(x.v), x.p, x.exp, x.con)
    if type(x) is Er:
        return x
    return Rec([Rep(r.cost, r.opt, r.left, r.ops, fn(r.v), r.p, r.exp, r.con)
                for r in x.reps], x.at, x.exp, x.con)


def relabel(x, exp):
    """Replace what was expected wherever nothing had been consumed yet."""
    if type(x) is Ok:
        return x if x.con else Ok(x.v, x.p, exp)
    if type(x) is Er:
        return x if x.con else Er(x.at, exp)
    reps = []
    for r in x.reps:
        ops = tuple([o if o[4] else (o[0], o[1], o[2], exp, False)
                     for o in r.ops])
        reps.append(Rep(r.cost, r.opt, r.left, ops, r.v, r.p,
                        r.exp if r.con else exp, r.con))
    return Rec(reps, x.at, x.exp if x.con else exp, x.con)


def prepend(x, exp, con):
    if type(x) is Ok:
        return x if x.con else Ok(x.v, x.p, exp + x.exp, con)
    if type(x) is Er:
        return x if x.con else Er(x.at, exp + x.exp, con)
    reps = []
    for r in x.reps:
        ops = tuple([o if o[4] else (o[0], o[1], o[2], exp + o[3], con)
                     for o in r.ops])
        if r.con:
            reps.append(Rep(r.cost, r.opt, r.left, ops, r.v, r.p, r.exp,
                            True))
        else:
            reps.append(Rep(r.cost, r.opt, r.left, ops, r.v, r.p,
                            exp + r.exp, con))
    return Rec(reps, x.at, x.exp if x.con else exp + x.exp, x.con or con)


# ---------------------------------------------------------------- derived

from .grammar import N  # noqa: E402

TERMINALS = frozenset((
    "sym", "satisfy", "letter", "digit", "literal", "regexp", "token",
    "token_ins", "symtok",
))

_CACHE = {}


def _cached(n, make):
    r = _CACHE.get(id(n))
    if r is None or r[0] is not n:
        if len(_CACHE) > 20000:
            _CACHE.clear()
        r = (n, make())
        _CACHE[id(n)] = r
    return r[1]


def tuple_tree(n):
    def make():
        t = n.args[0][0]
        for p in n.args[0][1:]:
            t = N("seq", (t, p), False)
        return t
    return _cached(n, make)


def tuple_fn(n):
    k = len(n.args[0])
    ap = n.args[1]

    def flat(v):
        out = []
        for _ in range(k - 1):
            v, last = v
            out.append(last)
        out.append(v)
        out.reverse()
        t = tuple(out)
        return ("ap",) + t if ap else t
    return flat


def d_sep_by(n):
    def make():
        p, s = n.args
        return N("maybe", (N("seq", (p, N("many", (
            N("seqr", (s, p), False),), True)), False),), True)

    def fn(v):
        return [] if v is None else [v[0]] + v[1]
    return _cached(n, make), fn


def d_between(n):
    def make():
        o, p, c = n.args
        return N("seqr", (o, N("seql", (p, c), False)), False)
    return _cached(n, make), lambda v: v


def _chain(n):
    def make():
        p, o = n.args
        return N("seq", (p, N("many", (N("seq", (
            o, p), False),), True)), False)
    return _cached(n, make)


def d_chainl1(n):
    def fn(v):
        acc, tail = v
        for o, x in tail:
            acc = Op(o)(acc, x)
        return acc
    return _chain(n), fn


def d_chainr1(n):
    def fn(v):
        first, tail = v
        if not tail:
            return first
        args = [first] + [x for _, x in tail]
        acc = args[-1]
        for (o, _), x in zip(reversed(tail), reversed(args[:-1])):
            acc = Op(o)(x, acc)
        return acc
    return _chain(n), fn


DERIVED = {
    "sep_by": d_sep_by, "between": d_between,
    "chainl1": d_chainl1, "chainr1": d_chainr1,
}


# ---------------------------------------------------------------- outcomes


def plain(it):
    """('ok', value, None) | ('err', None, [(pos, expected, None)])"""
    x = it.F(it.g.start, 0, 0)
    if type(x) is Ok:
        return ("ok", canon(x.v), x.p)
    return ("err", None, [(x.at, x.exp, None)])


def best(reps):
    b = reps[0]
    for r in reps[1:]:
        kr = (r.cost, -r.p, not r.opt)
        kb = (b.cost, -b.p, not b.opt)
        if kr < kb:
            b = r
    return b


def candidates(it, max_ins):
    """Every complete repair: [(value, [(pos, (kind, arg))])]"""
    x = it.R(it.g.start, 0, 0, max_ins, max_ins)
    if type(x) is not Rec:
        return []
    return [(canon(r.v), [(o[2], (o[0], o[1])) for o in r.ops])
            for r in x.reps]


def recovering(it, max_ins):
    """
    ('ok', value, _) | ('rec', value, errors) | ('err', None, [one error])
    """
    x = it.R(it.g.start, 0, 0, max_ins, max_ins)
    if type(x) is Ok:
        return ("ok", canon(x.v), x.p)
    if type(x) is Er or not x.reps:
        return ("err", None, [(x.at, x.exp, None)])
    b = best(x.reps)
    return ("rec", canon(b.v),
            [(o[2], o[3], (o[0], o[1])) for o in b.ops])
