"""C06: max_insertions bounds consecutive insertions, and only those."""
from ..common import (
    Case, case_inputs, gen_grammar, model_recover, no_exc, run_real
)
from ..grammar import (
    N, SeqDom, TextDom, build, kinds, mk_alt, mk_bind, mk_indented, mk_rep,
    mk_seq, mk_tuple, mk_un
)
from ..real import LX, Mode, expected_errors, unwrap
from .c04 import positions

RULE = (
    "'bound' parts: random grammars and inputs with max_insertions 0..12; no "
    "run of insertions at one position exceeds the limit and the outcome "
    "equals the reference interpreter's; 'missing' part: a sequence of "
    "distinct elements, built in a random shape, with random runs of elements "
    "left out of the input: the exact report follows from the runs; "
    "non-trivial: at least one insertion, or insertion needed but disabled"
)

BOOST = {"seq": 3, "tuple": 4, "recover_with": 3, "recover_with_fn": 2,
         "between": 2, "alt": 1}


def bound_part(dom):
    def part(src, rec):
        g = gen_grammar(src, dom, boost=BOOST)
        k = src.pick((0, 1, 2, 3, 4, 5, 6, 8, 12, 30))
        for c in case_inputs(src, g, 4, max_ins=k):
            want = model_recover(c)
            if want[0] == "ill":
                continue
            res, exc = run_real(c, True)
            no_exc(c, exc, True)
            out = unwrap(res)
            fixed = unwrap(res, True)
            n_ins = 0
            if out[0] == "err":
                errs = out[1]
                run = {}
                for p, e in zip(positions(c, errs), errs):
                    if e[3] is not None and e[3][0] == "ins":
                        n_ins += 1
                        run[p] = run.get(p, 0) + 1
                        if run[p] > c.mode.max_ins:
                            c.fail("%d insertions in a row with "
                                   "max_insertions=%d" % (
                                       run[p], c.mode.max_ins), report=out[2])
            # exactly the repair the allowance permits
            if want[0] == "ok":
                if out != ("ok", want[1]):
                    c.fail("wrong outcome", got=repr(out),
                           want=repr(want[:2]))
            else:
                exp = expected_errors(c.mode, want[2])
                ok = out[0] == "err" and out[1] == exp and (
                    fixed == ("ok", want[1]) if want[0] == "rec"
                    else fixed == out)
                if not ok:
                    c.fail("wrong repair for this insertion limit",
                           got=repr(out[1:2]), want=repr(exp),
                           value=repr(fixed)[:300])
            rec.label("max %d: %s%s" % (c.mode.max_ins, want[0],
                                        ", inserted" if n_ins else ""))
            rec.case(c.key(), n_ins > 0 or (
                c.mode.max_ins == 0 and want[0] == "err"),
                lambda: c.desc(report=out[2] if out[0] == "err" else ""))
    return part


CHARS = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
MORE = CHARS + "".join(chr(0x4e00 + i) for i in range(600))


def shape(src, leaves):
    """A random nesting of the leaves; value shape is irrelevant here."""
    if len(leaves) == 1:
        n = leaves[0]
    elif len(leaves) <= 8 and src.chance(30):
        n = mk_tuple(leaves, src.chance(50)) if len(leaves) > 1 else leaves[0]
    else:
        at = src.rng_int(1, len(leaves) - 1)
        a, b = shape(src, leaves[:at]), shape(src, leaves[at:])
        if src.chance(15):
            n = mk_bind(a, (b,))
        else:
            n = mk_seq(src.pick(("seq", "seql", "seqr")), a, b, src.below(3))
    w = src.below(28)
    dead = N("satisfy", ("never",), False)
    if w == 4:
        n = mk_un("label", n, "L")
    elif w == 5:
        n = mk_un("block", mk_un("aligned", n))
    elif w == 6:
        n = mk_un("block", mk_indented(0, n))
    elif w == 7:
        n = mk_alt(N("unexpected", ("x",), False), n)
    elif w == 8:
        n = mk_alt(n, dead)
    elif w == 9:
        n = mk_seq("seqr", mk_un("maybe", dead, nullable=True), n)
    elif w == 10:
        n = mk_seq("seql", n, mk_un("many", dead, nullable=True))
    elif w == 11:
        n = mk_seq("seql", n, N("pure", ("p",), True))
    elif w == 12:
        n = mk_bind(N("pure", ("p",), True), (n,))
    elif w == 13:
        n = mk_un("block", n)
    elif w == 14:
        n = mk_seq("seqr", mk_rep("sep_by", dead, dead), n)
    elif w == 15:
        n = mk_seq("seql", n, mk_un("maybe", dead, nullable=True))
    if w == 1:
        n = mk_un("fmap", n, ("tag", 1))
    elif w == 2:
        n = mk_un("recover", n)
    elif w == 3:
        n = mk_un("attempt", n)
    return n


def missing_part(src, rec):
    """
    m distinct elements; runs of them are missing.  A missing element occurs
    nowhere in the input, so insertion is its only repair.
    """
    kind = src.pick(("seq", "literal", "tok", "rw"))
    k = src.weighted([(4, 5), (3, 1), (3, 2), (3, 3), (2, 0), (1, 4), (1, 6),
                      (1, 9), (1, 15)])
    m = src.rng_int(1, 20)
    if src.chance(4):
        m = src.rng_int(20, len(CHARS))
        k = src.pick((k, 1, 10, 11, 20, 30))
    elif src.below(400) == 0:
        m = src.rng_int(len(CHARS), len(MORE))
        k = src.pick((33, 50, 64, 100, 128, 200, 255, 256, 300,
                      src.rng_int(30, 600)))
    leaves = []
    for i in range(m):
        ch = MORE[i]
        if kind == "tok":
            leaves.append((N("token_ins", (ch, "v" + ch), False), ch))
        elif kind == "literal":
            leaves.append((N("literal", (ch * 2,), False), repr(ch * 2)))
        elif kind == "rw" and src.below(2):
            leaves.append((mk_un("recover_with", N(
                "satisfy", (("in", (ch,)),), False), "R" + ch,
                None), repr("R" + ch)))
        else:
            leaves.append((N("sym", (ch, None), False), repr(ch)))
    # runs
    present = []
    runs = []
    i = 0
    while i < m:
        keep = src.rng_int(0, 4)
        miss = src.weighted([(4, 1), (3, 2), (2, k), (2, k + 1), (1, 3),
                             (1, 0), (1, k + 3)])
        present += list(range(i, min(m, i + keep)))
        i += keep
        if miss and i < m:
            runs.append((i, min(m, i + miss)))
            i += miss
    if not runs:
        return
    start = shape(src, [x for x, _ in leaves])
    if src.chance(60):
        start = mk_seq("seql", start, N("eof", (), True))
    dom = (SeqDom if kind in ("seq", "rw") else TextDom)
    from ..grammar import G
    g = G(dom)
    g.start = start
    c = Case(g, build(g).start)
    if kind == "literal":
        stream = "".join(MORE[j] * 2 for j in present)
        at = [2 * x for x in range(m + 1)]
        c.mode = Mode("slm" if k != 5 else src.pick(("sl", "slm")), stream, k)
    elif kind == "tok":
        stream = [LX.Token(MORE[j], MORE[j]) for j in present]
        at = list(range(m + 1))
        c.mode = Mode("plain", stream, k)
    else:
        stream = [MORE[j] for j in present]
        if src.below(2):
            stream = "".join(stream)
        at = list(range(m + 1))
        c.mode = Mode("plain", stream, k)
    # prediction: merge adjacent runs
    gone = set(range(m)) - set(present)
    want = []
    row = 0
    pos = 0
    possible = True
    for j in range(m):
        if j in gone:
            row += 1
            if row > k:
                possible = False
            want.append((at[pos], ("ins", leaves[j][1])))
        else:
            row = 0
            pos += 1
    res, exc = run_real(c, True)
    no_exc(c, exc, True)
    out = unwrap(res)
    fixed = unwrap(res, True)
    rec.label("missing, limit %d, %s" % (
        k, "repairable" if possible else "too many"))
    rec.case(c.key(), True, lambda: c.desc(
        report=out[2] if out[0] == "err" else repr(out)))
    if out[0] != "err":
        c.fail("missing elements went unnoticed", got=repr(out))
    got = [(e[0][0], e[3]) for e in out[1]]
    if possible:
        if got != want:
            c.fail("wrong insertions", got=repr(got), want=repr(want))
        if fixed[0] != "ok":
            c.fail("not repaired", got=repr(fixed))
    else:
        # an attempt inside a choice moves the report of a failure back
        moved = {"attempt", "alt"} <= kinds(g)
        if fixed[0] == "ok" or len(got) != 1 or got[0][1] is not None or \
                not moved and got[0][0] != want[0][0]:
            c.fail("more consecutive insertions than allowed", got=repr(got),
                   value=repr(fixed)[:300])


def parts(tier):
    k = 6 if tier == "quick" else 80
    return [
        ("bound sequences", bound_part("seq"), 7000 * k),
        ("bound text", bound_part("text"), 5000 * k),
        ("bound tokens", bound_part("tok"), 4000 * k),
        ("missing", missing_part, 10000 * k),
    ]
