"""C11: parsers and results are pure: no history or sharing effects."""
import os
import sys
import threading

from ..common import Case, gen_grammar, gen_mode, model_plain, model_recover
from ..engine import Discard, Violation
from ..grammar import (
    G, N, build, kinds, mk_alt, mk_rep, mk_seq, mk_tuple, mk_un, walk
)
from ..real import (
    LX, Loc, Mode, ParseError, err_tuples, expected_errors, unwrap
)
from ..grammar import canon

RULE = (
    "'histories': random sequences of operations over parsers that share "
    "sub-parsers (build another parser from existing ones, parse, unwrap an "
    "old result again, mutate a returned value or report, change an input "
    "list in place between parses, interrupt a parse "
    "by an exception from a user function, parse from inside a callback), "
    "every outcome compared with the reference interpreter, which has no "
    "history; 'threads': two or three parses over shared parsers "
    "interleaved at every user callback by a generated schedule; 'lines': "
    "the same, interleaved between lines of the library's own code; "
    "non-trivial: the outcome was checked after another operation touched "
    "the same parser, or the parse was interleaved"
)


class Quit(BaseException):
    pass


class UserError(Exception):
    pass


EXCS = (
    lambda: UserError("user"), lambda: IndexError("user"),
    lambda: RuntimeError("user"), lambda: ParseError([]),
    lambda: KeyError("user"), lambda: ZeroDivisionError("user"),
    lambda: TypeError("user"), lambda: ValueError("user"), lambda: Quit(),
    lambda: AttributeError("user"), lambda: LX.LexError(Loc(0, 0, 0)),
    lambda: RecursionError("user"),
)


class Hooked(Mode):
    """Any mode, with a location function and formatter that can be hooked."""

    def __init__(self, base, hook):
        self.base = base
        self.name = "custom"
        self.stream = base.stream
        self.src = base.src
        self.max_ins = base.max_ins
        self.loc = base.loc
        self.hook = hook

    def fmt(self, loc):
        return "%d/%d/%d" % tuple(loc)

    def parse(self, parser, recover):
        def get_loc(prev, stream, pos):
            self.hook("get_loc")
            return Loc(*self.loc(pos))

        def fmt_loc(loc):
            self.hook("fmt_loc")
            return self.fmt(loc)
        return parser.parse(
            self.stream, recover, max_insertions=self.max_ins,
            get_loc=get_loc, fmt_loc=fmt_loc)


class World:
    def __init__(self, src, extra):
        self.src = src
        self.on_hook = None
        g = gen_grammar(src)
        self.g = g
        self.real = build(g, hook=self.hook)
        self.starts = [(g, self.real.start)]
        self.nodes = [n for n in walk(g) if n.kind != "ref"]
        self.cache = {}
        self.touched = set()
        self.log = []
        for _ in range(extra):
            self.derive()
        self.modes = []
        for _ in range(src.rng_int(1, 3)):
            gi = self.starts[src.below(len(self.starts))][0]
            m = gen_mode(src, gi)
            if src.chance(65):
                m = Hooked(m, self.hook)
            self.modes.append(m)
        self.live = list(range(len(self.modes)))
        self.frozen = [
            m.stream if isinstance(m.stream, str) else list(m.stream)
            for m in self.modes]

    def hook(self, name):
        f = self.on_hook
        if f is not None:
            f(name)

    def derive(self):
        """A new parser out of existing ones."""
        src = self.src
        a = src.pick(self.nodes)
        b = src.pick(self.nodes)
        k = src.pick(("label", "seq", "alt", "maybe", "attempt", "fmap",
                      "recover", "recover_with", "many", "sep_by", "tuple",
                      "same", "seql"))
        sp = src.below(3)
        if k == "label":
            n = mk_un("label", a, "derived", sp=sp)
        elif k in ("seq", "seql"):
            n = mk_seq(k, a, b, sp)
        elif k == "alt":
            n = mk_alt(a, b, sp)
        elif k == "tuple":
            n = mk_tuple([a, b, a], src.chance(50), sp)
        elif k == "maybe":
            n = mk_un("maybe", a, nullable=True, sp=sp)
        elif k in ("attempt", "recover"):
            n = mk_un(k, a, sp=sp)
        elif k == "fmap":
            n = mk_un("fmap", a, ("tag", 9), sp=sp)
        elif k == "recover_with":
            n = mk_un("recover_with", a, "D", None, sp=sp)
        elif k == "many":
            n = mk_un("many", a, nullable=True, sp=sp) \
                if not a.nullable else a
        elif k == "sep_by":
            n = mk_rep("sep_by", a, b, sp) \
                if not (a.nullable and b.nullable) else a
        else:
            n = a
        if n is not a and len(self.nodes) < 60:
            self.nodes.append(n)
        s = n
        if src.chance(70):
            s = mk_seq("seql", n, N("eof", (), True))
        g = G(self.g.dom)
        g.rules = self.g.rules
        g.rule_nn = self.g.rule_nn
        g.start = s
        self.starts.append((g, self.real.node(s)))

    def job(self, like=None):
        src = self.src
        return (src.below(len(self.starts)), src.pick(self.live),
                src.chance(60))

    def edit_input(self):
        """The caller changes one of its input lists in place."""
        src = self.src
        i = src.pick(self.live)
        st = self.modes[i].stream
        if type(st) is not list:
            return False
        pool = [x for m in self.modes if type(m.stream) is list
                for x in m.stream]
        for _ in range(src.rng_int(1, 3)):
            j = src.below(len(st) + 1)
            k = src.below(4)
            if k == 0:
                del st[j:j + 1]
            elif k == 3 and j < len(st) and pool:
                st[j] = src.pick(pool)
            elif pool:
                st.insert(len(st) if k == 1 else j, src.pick(pool))
        # results so far keep their verdict; new parses get a new one
        old = self.modes[i]
        if isinstance(old, Hooked):
            m = Hooked(Mode(old.base.name, st, old.max_ins, old.src),
                       self.hook)
        else:
            m = Mode(old.name, st, old.max_ins, old.src)
        for j, other in enumerate(self.modes):
            if other.stream is st:
                self.frozen[j] = list(st)
        self.live[self.live.index(i)] = len(self.modes)
        self.modes.append(m)
        self.frozen.append(list(st))
        return True

    def expected(self, job):
        """Reference outcome, or None if the reference gives up."""
        r = self.cache.get(job)
        if r is None:
            g, parser = self.starts[job[0]]
            c = Case(g, parser)
            c.mode = self.modes[job[1]]
            try:
                r = (model_recover if job[2] else model_plain)(c, 6000)
                if r[0] == "err" or r[0] == "rec":
                    r = (r[0], r[1], expected_errors(c.mode, r[2]))
            except Discard:
                r = ("skip",)
            self.cache[job] = r
        return r

    def desc(self, job, **kw):
        g, _ = self.starts[job[0]]
        m = self.modes[job[1]]
        d = {"parser": g.show(), "input": repr(m.stream), "mode": m.name,
             "recover": job[2], "max_insertions": m.max_ins,
             "history": list(self.log)}
        d.update(kw)
        return d

    def fail(self, msg, job, **kw):
        raise Violation(msg, self.desc(job, **kw))

    def start_parse(self, job):
        return self.modes[job[1]].parse(self.starts[job[0]][1], job[2])

    def parse(self, job, rec, what="parse"):
        """Parses and checks; None if the reference has no verdict."""
        want = self.expected(job)
        if want[0] == "skip":
            return None
        try:
            res = self.start_parse(job)
        except (Violation, Discard):
            raise
        except Exception as e:
            if want[0] == "ill" and type(e) is RuntimeError:
                return None
            self.fail("%s raised %s: %s" % (what, type(e).__name__, e), job)
        if want[0] == "ill":
            self.fail("repetition over an empty match did not raise", job)
        self.check_streams(job)
        return res

    def check_streams(self, job):
        for m, f in zip(self.modes, self.frozen):
            if (m.stream if isinstance(m.stream, str)
                    else list(m.stream)) != f:
                self.fail("the input was modified", job,
                          before=repr(f), after=repr(m.stream))

    def verify(self, res, job, recover, rec, what):
        """unwrap() and compare; returns the raw value or exception."""
        want = self.expected(job)
        try:
            raw = res.unwrap(recover=recover)
            out = ("ok", canon(raw))
        except ParseError as e:
            raw = e
            out = ("err", err_tuples(e), str(e))
        if want[0] == "ok":
            good = out == ("ok", want[1])
        elif want[0] == "rec" and recover:
            good = out == ("ok", want[1])
        else:
            good = out[0] == "err" and out[1] == want[2]
        if not good:
            self.fail("%s: outcome depends on the history" % what, job,
                      unwrap_recover=recover, got=repr(out), want=repr(want))
        key = "%s|%r|%r|%s|%d|%s" % (
            self.starts[job[0]][0].show(), self.modes[job[1]].stream,
            job[2], recover, len(self.log), self.log[-1] if self.log else "")
        rec.case(key, job[0] in self.touched or len(self.log) > 1,
                 lambda: self.desc(job, outcome=repr(out)[:300]))
        self.touched.add(job[0])
        return raw


def mutate_value(v, src, depth=0):
    if type(v) is tuple and depth < 50:
        for x in v:
            mutate_value(x, src, depth + 1)
    elif type(v) is list:
        if depth < 50:
            for x in list(v):
                mutate_value(x, src, depth + 1)
        k = src.below(3)
        if k == 0:
            v.append("MUTATED")
        elif k == 1:
            v.clear()
        else:
            v[:] = ["M", "U"]


def mutate_error(e, src):
    for it in e.errors:
        k = src.below(3)
        if k == 0:
            it.expected.append("MUTATED")
        elif k == 1:
            it.expected.clear()
        else:
            it.loc_str = "MUTATED"
            it.expected[:] = ["x"]
            it.loc = None
        k = src.below(3)
        if k == 0:
            it.op = None
        elif k == 1:
            for name, v in (("label", "MUTATED"), ("count", 77)):
                if hasattr(it.op, name):
                    try:
                        setattr(it.op, name, v)
                    except AttributeError:      # frozen: nothing to share
                        pass
    if src.below(2):
        e.errors.reverse()
        del e.errors[1:]
    else:
        e.errors.clear()


def many_part(src, rec):
    """One parser, a few inputs, parsed up to thousands of times."""
    g = gen_grammar(src, n_rules=src.below(3))
    parser = build(g).start
    jobs = []
    for _ in range(src.rng_int(2, 6)):
        c = Case(g, parser)
        try:
            c.mode = gen_mode(src, g)
            plain = model_plain(c, 1500)
            if plain[0] == "ill":
                continue
            rec_ = model_recover(c, 1500)
        except Discard:
            continue
        if rec_[0] == "ill":
            continue
        for recover, want in ((False, plain), (True, rec_)):
            if want[0] == "ok":
                first = second = ("ok", want[1])
            else:
                first = ("err", expected_errors(c.mode, want[2]))
                second = ("ok", want[1]) if want[0] == "rec" else first
            jobs.append((c, recover, first, second))
    if not jobs:
        return
    n = src.pick((70, 150, 300, 600, 1100, 2100))
    seq = [src.below(len(jobs)) for _ in range(7)]
    for i in range(n):
        c, recover, first, second = jobs[seq[i % 7]]
        try:
            res = c.mode.parse(parser, recover)
        except Exception as e:
            c.fail("parse number %d raised %s: %s" % (
                i + 1, type(e).__name__, e), recover=recover)
        for flag, want in ((False, first), (True, second)):
            got = unwrap(res, flag)[:2]
            if got != want:
                c.fail("parse number %d with the same parser differs" %
                       (i + 1), recover=recover, unwrap_recover=flag,
                       got=repr(got), want=repr(want))
    rec.label("%d parses" % n)
    rec.case("many|%d|%r|%s" % (n, seq, jobs[0][0].key()), True,
             lambda: jobs[0][0].desc(parses=n))


many_part.may_be_slow = 8.0


def history_part(src, rec):
    w = World(src, src.below(3))
    results = []
    for _ in range(src.rng_int(3, 12)):
        k = src.weighted([
            (6, "parse"), (4, "again"), (3, "mutate"), (2, "derive"),
            (3, "interrupt"), (3, "reenter"), (1, "interrupt unwrap"),
            (3, "edit input")])
        if k == "edit input":
            if w.edit_input():
                w.log.append("edit input")
                rec.label("edited input")
            continue
        if k == "derive":
            w.derive()
            w.log.append("derive")
            continue
        if k in ("again", "mutate", "interrupt unwrap"):
            if not results:
                continue
            i = src.below(len(results))
            res, job = results[i]
            if k == "interrupt unwrap":
                exc = src.pick(EXCS)()

                def boom(name):
                    raise exc
                w.on_hook = boom
                try:
                    res.unwrap(recover=src.chance(50))
                except ParseError:
                    pass
                except BaseException as e:
                    if e is not exc:
                        raise
                w.on_hook = None
                w.log.append("interrupt unwrap")
                w.verify(res, job, src.chance(50), rec, "after interrupt")
                continue
            w.log.append(k)
            raw = w.verify(res, job, src.chance(50), rec, k)
            if k == "mutate":
                if isinstance(raw, ParseError):
                    mutate_error(raw, src)
                    rec.label("mutated report")
                else:
                    mutate_value(raw, src)
                    rec.label("mutated value")
                    del results[i]
            continue
        job = w.job()
        if w.expected(job)[0] == "skip":
            continue
        if k == "parse":
            w.log.append("parse%r" % (job,))
            res = w.parse(job, rec)
        elif k == "interrupt":
            exc = src.pick(EXCS)()
            left = [src.below(src.pick((1, 2, 4, 30)))]
            names = []

            def boom(name):
                if left[0] == 0:
                    names.append(name)
                    raise exc
                left[0] -= 1
            w.on_hook = boom
            try:
                res = w.start_parse(job)
            except BaseException as e:
                w.on_hook = None
                if names and e is not exc:
                    w.fail("user exception %r from %s replaced by %r" % (
                        exc, names[0], e), job)
                if not names and not (
                        w.expected(job)[0] == "ill"
                        and type(e) is RuntimeError):
                    raise
                res = None
            else:
                w.on_hook = None
                if names:
                    w.fail("user exception %r from %s swallowed" % (
                        exc, names[0]), job)
                if w.expected(job)[0] == "ill":
                    res = None
            w.log.append("interrupt%r in %s" % (
                job, names[0] if names else "nothing"))
            rec.label("interrupted" if names else "not interrupted")
            if src.chance(60):
                res = w.parse(job, rec, "parse after interrupt")
        else:
            inner = w.job()
            left = [src.below(src.pick((1, 2, 4, 20)))]
            nested = []

            def reenter(name):
                if left[0] > 0:
                    left[0] -= 1
                    return
                w.on_hook = None
                r = w.parse(inner, rec, "nested parse")
                if r is not None:
                    nested.append(r)
                    w.verify(r, inner, False, rec, "nested parse in " + name)
                if again and len(nested) < 12:
                    left[0] = again
                    w.on_hook = reenter
            again = src.below(4)
            w.expected(inner)
            w.log.append("nest%r in%r" % (inner, job))
            w.on_hook = reenter
            res = w.parse(job, rec, "outer parse")
            w.on_hook = None
            rec.label("nested" if nested else "not nested")
            results += [(r, inner) for r in nested[:2]]
        if res is not None:
            w.verify(res, job, src.chance(50), rec, k)
            results.append((res, job))


# ----------------------------------------------------------------- threads


class Schedule:
    """Runs functions in threads, one at a time, switching at hooks."""

    def __init__(self, src, fns, max_switches=120):
        self.src = src
        self.locks = [threading.Semaphore(0) for _ in fns]
        self.done = threading.Semaphore(0)
        self.alive = list(range(len(fns)))
        self.fns = fns
        self.left = max_switches
        self.errors = []
        self.switches = 0
        self.ids = {}
        self.dead = False

    def next(self, me):
        if self.left > 0 and len(self.alive) > 1:
            self.left -= 1
            try:
                return self.alive[self.src.below(len(self.alive))]
            except Discard:
                self.left = 0
        return me if me in self.alive else self.alive[0]

    def hook(self, name):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        to = self.next(me)
        if to != me:
            self.switches += 1
            self.locks[to].release()
            self.locks[me].acquire()
            if self.dead:
                raise Quit

    def run(self, i):
        self.locks[i].acquire()
        if self.dead:
            return
        self.ids[threading.get_ident()] = i
        try:
            self.fns[i]()
        except BaseException as e:
            self.errors.append(e)
        self.alive.remove(i)
        if self.alive:
            self.locks[self.next(i)].release()
        else:
            self.done.release()

    def go(self):
        ts = [threading.Thread(target=self.run, args=(i,), daemon=True)
              for i in range(len(self.fns))]
        for t in ts:
            t.start()
        try:
            self.locks[self.next(0)].release()
            self.done.acquire()
        except BaseException:
            self.dead = True
            for x in self.locks:
                x.release()
            raise
        for t in ts:
            t.join()
        if self.errors:
            raise self.errors[0]


class LineSchedule(Schedule):
    """Switches between lines of the library's code as well."""

    def __init__(self, src, fns):
        Schedule.__init__(self, src, fns, 60)
        import reparsec
        self.where = os.path.dirname(os.path.abspath(reparsec.__file__))
        # gaps, in lines, between the places where a switch may happen
        top = src.pick((2, 6, 25, 120))
        self.gaps = [1 + src.below(top) for _ in range(src.rng_int(4, 30))]
        self.at = 0
        self.left_lines = self.gaps[0]
        self.budget = 150000

    def run(self, i):
        def local(frame, event, arg):
            if event == "line":
                self.left_lines -= 1
                self.budget -= 1
                if self.left_lines <= 0 and not self.dead:
                    if self.budget < 0:
                        self.left = 0
                    self.at = (self.at + 1) % len(self.gaps)
                    self.left_lines = self.gaps[self.at]
                    if self.left > 0:
                        self.hook("line")
            return local

        def tracer(frame, event, arg):
            if self.left > 0 and \
                    frame.f_code.co_filename.startswith(self.where):
                return local
            return None
        sys.settrace(tracer)
        try:
            Schedule.run(self, i)
        finally:
            sys.settrace(None)


def line_part(src, rec):
    thread_part(src, rec, LineSchedule)


def thread_part(src, rec, schedule=Schedule):
    w = World(src, src.below(3))
    n = src.pick((2, 2, 3))
    jobs = []
    for _ in range(n):
        job = w.job()
        if src.chance(50) and jobs:
            job = (jobs[0][0],) + job[1:]
        if w.expected(job)[0] in ("skip", "ill"):
            return
        jobs.append(job)
    out = [None] * n
    w.log.append("threads%r" % (jobs,))

    def make(i):
        def fn():
            out[i] = w.parse(jobs[i], rec, "interleaved parse")
            w.verify(out[i], jobs[i], False, rec, "interleaved parse")
        return fn
    s = schedule(src, [make(i) for i in range(n)])
    w.on_hook = s.hook
    try:
        s.go()
    finally:
        w.on_hook = None
    for i in range(n):
        w.verify(out[i], jobs[i], True, rec, "after interleaving")
        r = w.parse(jobs[i], rec, "parse after interleaving")
        w.verify(r, jobs[i], True, rec, "parse after interleaving")
    rec.label("switches %s" % (
        "0" if not s.switches else "1-9" if s.switches < 10 else "10+"))


def parts(tier):
    k = 6 if tier == "quick" else 80
    return [
        ("histories", history_part, 14000 * k),
        ("threads", thread_part, 5000 * k),
        ("many parses", many_part, 30 * k),
        ("lines", line_part, 2500 * k),
    ]
