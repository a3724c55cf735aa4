"""
Context-free reading of a grammar over an edited input.

derive(...) enumerates every value the grammar, read without any ordering of
choices, can give to the input with a list of edits applied.  It knows nothing
about how repairs are found.
"""
from .grammar import Op, bind_key, canon, fmap_fn, rwf_value
from .model import Interp, OutOfFuel, TERMINALS


class Deriver:
    """
    ops: [(position, ("skip", count) | ("ins", label))], applied in order.
    Results of go(): list of (position, ops applied, value), distinct up to
    canon(value).
    """

    def __init__(self, it, ops, fuel=12000):
        self.it = it            # for terminal matching and columns only
        self.ops = ops
        self.fuel = fuel
        self.memo = {}

    def tick(self, n=1):
        self.fuel -= n
        if self.fuel < 0:
            raise OutOfFuel()

    def op_at(self, p, i):
        if i < len(self.ops) and self.ops[i][0] == p:
            return self.ops[i][1]
        return None

    def live(self, p, i):
        return i >= len(self.ops) or self.ops[i][0] >= p

    def go(self, n, p, i, mark):
        key = (id(n), p, i, mark)
        r = self.memo.get(key)
        if r is None:
            self.tick()
            r = []
            seen = set()
            for q, j, v in self.go_(n, p, i, mark):
                self.tick()
                if not self.live(q, j):
                    continue
                k = (q, j, canon(v))
                if k not in seen:
                    seen.add(k)
                    r.append((q, j, v))
            self.memo[key] = r
        return r

    def term(self, n, p, i):
        it = self.it
        op = self.op_at(p, i)
        m = it.term(n, p)
        if m is not None:
            yield (m[1], i, m[0])
        if op is None:
            return
        if op[0] == "skip":
            q = p + op[1]
            if q < it.n:
                m = it.term(n, q)
                if m is not None:
                    yield (m[1], i + 1, m[0])
        else:
            iv = it.ins_value(n, p)
            if iv is not None and op[1] == it.describe(n)[0]:
                yield (p, i + 1, iv[0])
            if n.kind == "token_ins" and op[1] == n.args[0]:
                loc = it.tok_loc(p)
                yield (p, i + 1,
                       it.tok_cls(n.args[0], n.args[1], loc, loc))

    def chain(self, nodes, p, i, mark):
        """All ways to match nodes in order: (p, i, [values])"""
        states = [(p, i, [])]
        for n in nodes:
            nxt = []
            for q, j, vs in states:
                for r, k, v in self.go(n, q, j, mark):
                    self.tick()
                    nxt.append((r, k, vs + [v]))
            states = self.dedup(nxt)
        return states

    def dedup(self, states):
        seen = set()
        out = []
        for s in states:
            k = (s[0], s[1], canon(s[2]))
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    def star(self, step, states):
        """Zero or more steps from each state; every step must progress."""
        out = list(states)
        cur = list(states)
        while cur:
            nxt = []
            for s in cur:
                for t in step(s):
                    self.tick(1 + len(t[2]) // 4)
                    if (t[0], t[1]) != (s[0], s[1]):
                        nxt.append(t)
            cur = self.dedup(nxt)
            out += cur
        return self.dedup(out)

    def go_(self, n, p, i, mark):
        k, a = n.kind, n.args
        it = self.it
        if k in TERMINALS:
            yield from self.term(n, p, i)
        elif k in ("seq", "seql", "seqr"):
            for q, j, vs in self.chain(a, p, i, mark):
                yield (q, j, (vs[0], vs[1]) if k == "seq"
                       else vs[0] if k == "seql" else vs[1])
        elif k == "tuple":
            for q, j, vs in self.chain(a[0], p, i, mark):
                yield (q, j, (("ap",) if a[1] else ()) + tuple(vs))
        elif k == "between":
            for q, j, vs in self.chain(a, p, i, mark):
                yield (q, j, vs[1])
        elif k == "alt":
            yield from self.go(a[0], p, i, mark)
            yield from self.go(a[1], p, i, mark)
        elif k == "maybe":
            yield from self.go(a[0], p, i, mark)
            yield (p, i, None)
        elif k == "many":
            yield from self.star(
                lambda s: [(r, m, s[2] + [v])
                           for r, m, v in self.go(a[0], s[0], s[1], mark)],
                [(p, i, [])])
        elif k == "sep_by":
            yield (p, i, [])
            yield from self.star(
                lambda s: [(r, m, s[2] + [vs[1]]) for r, m, vs in self.chain(
                    (a[1], a[0]), s[0], s[1], mark)],
                [(q, j, [v]) for q, j, v in self.go(a[0], p, i, mark)])
        elif k in ("chainl1", "chainr1"):
            for q, j, vs in self.star(
                    lambda s: [(r, m, s[2] + vs)
                               for r, m, vs in self.chain(
                        (a[1], a[0]), s[0], s[1], mark)],
                    [(q, j, [v]) for q, j, v in self.go(a[0], p, i, mark)]):
                yield (q, j, fold(vs, k == "chainl1"))
        elif k == "bind":
            for q, j, v in self.go(a[0], p, i, mark):
                yield from self.go(a[1][bind_key(canon(v), len(a[1]))],
                                   q, j, mark)
        elif k == "fmap":
            f = fmap_fn(a[1])
            for q, j, v in self.go(a[0], p, i, mark):
                yield (q, j, f(v))
        elif k in ("attempt", "label", "recover"):
            yield from self.go(a[0], p, i, mark)
        elif k in ("recover_with", "recover_with_fn"):
            yield from self.go(a[0], p, i, mark)
            op = self.op_at(p, i)
            if op is not None and op[0] == "ins":
                v = a[1] if k == "recover_with" else rwf_value(
                    a[1], it.n, p)
                if op[1] == (repr(v) if a[2] is None else a[2]):
                    yield (p, i + 1, v)
        elif k == "ref":
            yield from self.go(it.g.rules[a[0]], p, i, mark)
        elif k == "eof":
            if p == it.n:
                yield (p, i, None)
            else:
                op = self.op_at(p, i)
                if op is not None and op == ("skip", it.n - p):
                    yield (it.n, i + 1, None)
        elif k == "pure":
            yield (p, i, a[0])
        elif k == "purefn":
            yield (p, i, ["pf", a[0]])
        elif k == "unexpected":
            return
        elif k == "block":
            yield from self.go(a[0], p, i, it.col(p))
        elif k == "aligned":
            if it.col(p) == mark:
                yield from self.go(a[0], p, i, mark)
        elif k == "indented":
            if it.col(p) == mark + a[0]:
                yield from self.go(a[1], p, i, it.col(p))
        else:
            raise AssertionError(k)


def fold(vs, left):
    if left:
        acc = vs[0]
        for x in range(1, len(vs), 2):
            acc = Op(vs[x])(acc, vs[x + 1])
        return acc
    acc = vs[-1]
    for x in range(len(vs) - 2, 0, -2):
        acc = Op(vs[x])(vs[x - 1], acc)
    return acc


def derive(it, ops, fuel=12000):
    """Canonical values of the whole grammar with all ops applied."""
    d = Deriver(it, ops, fuel)
    out = {}
    for p, i, v in d.go(it.g.start, 0, 0, 0):
        if i == len(ops):
            out.setdefault(canon(v), []).append(p)
    return out
