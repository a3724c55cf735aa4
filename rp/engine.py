"""
Generated-input search engine (choice-sequence property testing).

A *case* is a pure function of a list of small integers (the choice sequence).
In random mode the integers come from random.Random(seed string); in replay
mode they come from a saved list (reads past the end give 0).  Shrinking edits
the list, so every generator shrinks for free and every failure is replayable
without the library or the random number generator.
"""
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken on this case (raised by a property's oracle)."""

    def __init__(self, msg, case=None):
        super().__init__(msg)
        self.msg = msg
        self.case = case


class Discard(Exception):
    """The case is outside what the check explores (counted, not a pass)."""

    def __init__(self, why="discard"):
        super().__init__(why)
        self.why = why


class Hang(BaseException):
    """CPU budget of one case exhausted (confirmed deterministically later)."""


class Src:
    """Source of choices."""

    __slots__ = ("rng", "given", "i", "rec", "limit")

    def __init__(self, seed=None, given=None, limit=60000):
        self.rng = random.Random(seed) if given is None else None
        self.given = given
        self.i = 0
        self.rec = []
        self.limit = limit

    def below(self, n):
        """Integer in [0, n)."""
        if n <= 1:
            return 0
        if self.rng is not None:
            v = int(self.rng.random() * n)
        else:
            i = self.i
            v = self.given[i] if i < len(self.given) else 0
            if v >= n:
                v = n - 1
        self.i += 1
        if self.i > self.limit:
            raise Discard("choice limit")
        self.rec.append(v)
        return v

    def rng_int(self, lo, hi):
        """Integer in [lo, hi]; lo is the simplest."""
        return lo + self.below(hi - lo + 1)

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def chance(self, num, den=100):
        """True with probability num/den; the simplest choice is False."""
        return self.below(den) >= den - num

    def weighted(self, pairs):
        """pairs: [(weight, value)], first is the simplest."""
        tot = 0
        for w, _ in pairs:
            tot += w
        k = self.below(tot)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def geom(self, stop_num, stop_den, cap):
        """Geometric count, capped; 0 is the simplest."""
        n = 0
        while n < cap and self.below(stop_den) >= stop_num:
            n += 1
        return n

    def size(self, small, big, big_pct=5):
        """Usually in [0, small], sometimes in [0, big]."""
        if self.chance(big_pct):
            return self.below(big + 1)
        return self.below(small + 1)


class Rec:
    """What a run covered."""

    def __init__(self, max_samples=6):
        self.evals = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.max_samples = max_samples
        self.case_desc = None

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def case(self, key, nontrivial, desc=None):
        """One oracle evaluation."""
        self.evals += 1
        if nontrivial:
            h = hashlib.blake2b(
                key.encode("utf-8", "backslashreplace"), digest_size=8
            ).digest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                n = len(self.nontrivial)
                if desc is not None and len(self.samples) < self.max_samples \
                        and (n & (n - 1)) == 0:
                    self.samples.append(desc() if callable(desc) else desc)


def fresh_rec():
    return Rec()


# ---------------------------------------------------------------- hang guard

CPU_LIMIT_S = 12.0
TRACE_LIMIT = 30_000_000


def _on_prof(signum, frame):
    raise Hang()


def _guarded(fn, src, rec, cpu_limit):
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, cpu_limit, 1.0)
    try:
        return fn(src, rec)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _traced(fn, src, rec):
    """Re-run counting executed lines: a deterministic divergence test."""
    n = 0

    def tracer(frame, event, arg):
        nonlocal n
        n += 1
        if n > TRACE_LIMIT:
            sys.settrace(None)
            raise Hang()
        return tracer

    sys.settrace(tracer)
    try:
        return fn(src, rec)
    finally:
        sys.settrace(None)


def run_one(fn, make_src, rec):
    """
    Returns (status, info, src); status in ok/violation/discard/slow.
    Anything else propagates: it is a harness error.
    """
    src = make_src()
    try:
        try:
            may = getattr(fn, "may_be_slow", False)
            _guarded(fn, src, rec, CPU_LIMIT_S if not may else
                     3.0 if may is True else may)
            return "ok", None, src
        except (Hang, MemoryError):
            if may:
                return "discard", "too slow to judge", src
        # CPU budget exhausted: decide deterministically
        src = make_src()
        try:
            _traced(fn, src, Rec())
            return "slow", None, src
        except (Hang, MemoryError):
            return "violation", Violation(
                "does not terminate: more than %d lines executed on a case "
                "whose reference run is tiny" % TRACE_LIMIT
            ), src
    except Violation as v:
        return "violation", v, src
    except Discard as d:
        return "discard", d.why, src
    except Exception as e:
        v = escaped(e)
        if v is None:
            raise
        return "violation", v, src


def escaped(e):
    """Violation for an exception nobody expected from the code under test."""
    tb = e.__traceback__
    names = []
    while tb is not None:
        names.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    if any(os.sep + "reparsec" + os.sep in n for n in names):
        return Violation("unexpected %s from the code under test: %s" % (
            type(e).__name__, str(e)[:300]))
    return None


# ---------------------------------------------------------------- shrinking


def shrink(fn, choices, budget_s=25.0, max_tries=4000):
    """Minimise a failing choice sequence (plain violations only)."""
    best = list(choices)
    best_v = None
    end = time.monotonic() + budget_s
    tries = 0

    def fails(cand):
        nonlocal tries, best_v
        tries += 1
        src = Src(given=cand)
        try:
            _guarded(fn, src, Rec(), 4.0)
        except Violation as v:
            best_v = v
            return list(src.rec)
        except (Discard, Hang, MemoryError):
            return None
        except Exception as e:
            best_v = escaped(e)
            return None if best_v is None else list(src.rec)
        return None

    r = fails(best)
    if r is None:
        return best, None
    best = r

    def key(c):
        return (len(c), c)

    improved = True
    while improved and time.monotonic() < end and tries < max_tries:
        improved = False
        # delete chunks
        size = max(1, len(best) // 2)
        while size >= 1:
            i = len(best) - size
            while i >= 0:
                if time.monotonic() > end or tries > max_tries:
                    break
                cand = best[:i] + best[i + size:]
                r = fails(cand)
                if r is not None and key(r) < key(best):
                    best = r
                    improved = True
                    i = min(i, len(best) - size)
                    if i < 0:
                        break
                else:
                    i -= size
            size //= 2
        # zero chunks, then minimise single values
        for size in (8, 4, 2):
            i = 0
            while i + size <= len(best):
                if time.monotonic() > end or tries > max_tries:
                    break
                if any(best[i:i + size]):
                    cand = best[:i] + [0] * size + best[i + size:]
                    r = fails(cand)
                    if r is not None and key(r) < key(best):
                        best = r
                        improved = True
                i += size
        i = 0
        while i < len(best):
            if time.monotonic() > end or tries > max_tries:
                break
            v = best[i]
            for nv in {0, 1, v // 2, v - 1}:
                if 0 <= nv < best[i]:
                    cand = best[:i] + [nv] + best[i + 1:]
                    r = fails(cand)
                    if r is not None and key(r) < key(best):
                        best = r
                        improved = True
                        break
            i += 1
    fails(best)
    return best, best_v


# ---------------------------------------------------------------- runner


def seed_for(seed, prop, part, index):
    return "%s/%s/%s/%d" % (seed, prop, part, index)


def _work(args):
    prop_id, k, seed, lo, hi, stop = args
    part, fn = _PARTS[k][:2]
    given = _PARTS[k][3] if len(_PARTS[k]) > 3 else None
    rec = Rec()
    out = {"part": part, "discards": {}, "slow": 0, "violation": None,
           "error": None, "n": 0}
    errors = 0
    for i in range(lo, hi):
        if stop.value:
            break
        out["n"] += 1
        try:
            if given is not None:
                st, info, src = run_one(
                    fn, lambda: Src(given=given(i)), rec)
            else:
                st, info, src = run_one(
                    fn, lambda: Src(seed_for(seed, prop_id, part, i)), rec
                )
        except Exception:
            # a harness error; a violation elsewhere still decides
            out["error"] = "case %s %d\n%s" % (
                part, i, traceback.format_exc()
            )
            errors += 1
            if errors > 20:
                break
            continue
        if st == "discard":
            out["discards"][info] = out["discards"].get(info, 0) + 1
        elif st == "slow":
            out["slow"] += 1
        elif st == "violation":
            stop.value = 1
            best, v = shrink(fn, src.rec)
            v = v or info
            out["violation"] = {
                "index": i, "choices": best, "msg": v.msg, "case": v.case
            }
            break
    out["rec"] = (rec.evals, rec.nontrivial, rec.labels, rec.samples)
    return out


class _Flag:
    value = 0


_SHARED = None
_PARTS = None


def _init(flag):
    global _SHARED
    _SHARED = flag
    sys.setrecursionlimit(12000)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except Exception:
        pass


def _work_shared(args):
    return _work(args + (_SHARED,))


def jobs():
    try:
        n = len(os.sched_getaffinity(0))
    except Exception:
        n = os.cpu_count() or 1
    return max(1, min(8, n))


def run_parts(prop_id, parts, seed):
    """
    parts: [(name, fn, n_cases)] or [(name, fn, n_cases, given)], where
    given(i) is the whole choice sequence of case i (exhaustive parts).
    Runs every case of every part, in parallel, as a pure function of
    (code, seed).
    """
    tasks = []
    global _PARTS
    _PARTS = parts
    for k, part in enumerate(parts):
        n = part[2]
        step = max(1, min(200, (n + 31) // 32))
        for lo in range(0, n, step):
            tasks.append((prop_id, k, seed, lo, min(n, lo + step)))
    total = Rec()
    res = {"violation": None, "error": None, "discards": {}, "slow": 0,
           "cases": 0, "parts": {}}
    flag = mp.get_context("fork").Value("i", 0)
    ctx = mp.get_context("fork")
    viols = []
    with ctx.Pool(jobs(), initializer=_init, initargs=(flag,)) as pool:
        for out in pool.imap_unordered(_work_shared, tasks, chunksize=1):
            ev, nt, labels, samples = out["rec"]
            total.evals += ev
            total.nontrivial |= nt
            for k, v in labels.items():
                total.label(k, v)
            if len(total.samples) < 12:
                total.samples.extend(samples[:2])
            for k, v in out["discards"].items():
                res["discards"][k] = res["discards"].get(k, 0) + v
            res["slow"] += out["slow"]
            res["cases"] += out["n"]
            p = res["parts"].setdefault(out["part"], 0)
            res["parts"][out["part"]] = p + out["n"]
            if out["error"]:
                res["error"] = out["error"]
            if out["violation"]:
                viols.append((out["part"], out["violation"]))
    if viols:
        viols.sort(key=lambda pv: (len(pv[1]["choices"]), pv[1]["index"]))
        res["violation"] = viols[0]
    return total, res


def write_replay(prop_id, part, seed, viol):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    body = {
        "property": prop_id, "part": part, "seed": seed,
        "index": viol["index"], "choices": viol["choices"],
        "tier": viol.get("tier", "quick"), "message": viol["msg"], "case": viol["case"],
    }
    h = hashlib.blake2b(
        json.dumps([part, viol["choices"]]).encode(), digest_size=5
    ).hexdigest()
    path = os.path.join(d, "%s-%s.json" % (prop_id, h))
    with open(path, "w") as f:
        json.dump(body, f, indent=1, default=repr)
    return path
