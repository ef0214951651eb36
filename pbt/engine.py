"""A small property-based testing engine that runs inside the interpreter the
project is built with (PyPy 3.9, where no Hypothesis wheel installs).

Every random decision of a case is one bounded integer drawn from a `Data`
object, so a case *is* its list of integers: cases are generated by drawing
them from a seeded generator, replayed by reading them from a file, and shrunk
by deleting/lowering them (the design of Hypothesis' internal reduction).
Case number i of part p under seed s depends on (s, p, i) only, so a run is a
pure function of the code under test and VERIF_SEED, whatever the sharding.
"""
import contextlib
import hashlib
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

HANG_SECONDS = int(os.environ.get("VERIF_HANG_SECONDS", "120"))
SHRINK_SECONDS = 40
WALL_CAP = {"quick": 420, "thorough": 7200}


class Violation(Exception):
    def __init__(self, tag, message):
        super().__init__("%s: %s" % (tag, message))
        self.tag = tag
        self.message = message


class Discard(Exception):
    """The generated case is outside the property's domain."""


class Hang(BaseException):
    pass


class Data:
    def __init__(self, rnd=None, replay=None):
        self._rnd = rnd
        self._replay = replay
        self.choices = []
        self.labels = []
        self.keys = []
        self.notes = {}
        self.sample = None
        self.cases = 1

    # -- drawing -----------------------------------------------------------
    def below(self, n):
        """An integer in [0, n); 0 is the simplest."""
        if n <= 1:
            return 0
        if self._replay is not None:
            k = len(self.choices)
            v = self._replay[k] if k < len(self._replay) else 0
            if v >= n:
                v = n - 1
        else:
            v = int(self._rnd.random() * n)
        self.choices.append(v)
        return v

    def between(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def chance(self, num, den):
        """True with probability num/den; False is the simplest."""
        return self.below(den) >= den - num

    def weighted(self, pairs):
        """pairs: [(weight, value)], simplest first."""
        total = sum(w for w, _ in pairs)
        r = self.below(total)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        return pairs[-1][1]

    def size(self, lo, hi):
        """A size biased to the small end, but reaching hi."""
        if self.chance(1, 3):
            return self.between(lo, hi)
        return self.between(lo, min(hi, lo + max(1, (hi - lo) // 3)))

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.below(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, k):
        return self.shuffled(seq)[:k]

    # -- reporting ---------------------------------------------------------
    def label(self, name):
        self.labels.append(name)

    def nontrivial(self, key):
        self.keys.append(key)

    def note(self, **kw):
        self.notes.update(kw)

    # -- judging -----------------------------------------------------------
    def fail(self, tag, message):
        raise Violation(tag, message)

    def check(self, ok, tag, message="", *args):
        if not ok:
            raise Violation(tag, message % args if args else message)

    def equal(self, tag, got, expected, context=""):
        if got != expected:
            raise Violation(tag, "got %.2000r expected %.2000r %s" % (got, expected, context))

    @contextlib.contextmanager
    def sut(self, what):
        """Code under test runs in here: valid input, so any exception it lets
        escape is a violation, not a harness error."""
        try:
            yield
        except (Violation, Discard):
            raise
        except Hang:
            raise Violation("hang:" + what, "no result within %d s" % HANG_SECONDS)
        except RecursionError as e:
            raise Violation("crash:%s:RecursionError" % what, str(e)[:200])
        except Exception as e:
            tb = traceback.format_exc().splitlines()
            raise Violation("crash:%s:%s" % (what, type(e).__name__),
                            "%s\n%s" % (e, "\n".join(tb[-8:])))


class Part:
    def __init__(self, name, fn, quick, thorough, exhaustive=None):
        self.name = name
        self.fn = fn
        self.count = {"quick": quick, "thorough": thorough}
        self.exhaustive = exhaustive      # number of items enumerated, if any


def _alarm(signum, frame):
    raise Hang()


def run_case(part, data, index=None):
    """Returns None or a Violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG_SECONDS)
    try:
        if part.exhaustive is not None:
            part.fn(data, index)
        else:
            part.fn(data)
        return None
    except Discard:
        data.labels.append("(discarded)")
        data.keys = []
        return None
    except Violation as v:
        return v
    except Hang:
        return Violation("hang", "no answer within %d s" % HANG_SECONDS)
    except Exception as e:
        # The oracle reads every right answer (the unchanged tree shows that),
        # so an answer it cannot even read is a wrong one.
        signal.alarm(0)
        return Violation("unreadable", "the check could not read an answer: %s\n%s" % (
            repr(e)[:500], "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])[:3000]))
    finally:
        signal.alarm(0)


def case_seed(seed, prop, part, i):
    return "%s|%s|%s|%s" % (seed, prop, part, i)


def run_shard(prop, parts, tier, seed, shard, nshards, known, stop_at):
    out = {"parts": {}, "failures": [], "known": {}, "inconclusive": False}
    for part in parts:
        total = part.exhaustive if part.exhaustive is not None else part.count[tier]
        stats = {"evaluations": 0, "labels": {}, "keys": set(), "samples": [],
                 "cases_planned": total}
        out["parts"][part.name] = stats
        for i in range(shard, total, nshards):
            if time.time() > stop_at:
                out["inconclusive"] = True
                break
            data = Data(rnd=random.Random(case_seed(seed, prop, part.name, i)))
            v = run_case(part, data, i)
            stats["evaluations"] += data.cases
            for lab in data.labels:
                stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
            for k in data.keys:
                stats["keys"].add(hashlib.blake2b(repr(k).encode("utf8", "replace"),
                                                  digest_size=8).digest())
            if data.sample is not None and len(stats["samples"]) < 2 and data.keys:
                stats["samples"].append(data.sample)
            if v is not None:
                hit = known(part.name, v, data)
                if hit is not None:
                    out["known"][hit] = out["known"].get(hit, 0) + 1
                    continue
                out["failures"].append({
                    "part": part.name, "index": i, "tag": v.tag, "message": v.message,
                    "choices": list(data.choices), "notes": data.notes})
                break
    return out


def shrink(part, failure, known, seconds=SHRINK_SECONDS):
    if part.exhaustive is not None or failure["tag"].startswith("hang:"):
        return failure
    best = failure
    end = time.time() + seconds
    tried = set()

    def attempt(choices):
        nonlocal best
        key = tuple(choices)
        if key in tried or time.time() > end:
            return False
        tried.add(key)
        data = Data(replay=list(choices))
        try:
            v = run_case(part, data)
        except Exception:
            return False
        if v is None or v.tag != best["tag"] or known(part.name, v, data) is not None:
            return False
        if (len(data.choices), data.choices) >= (len(best["choices"]), best["choices"]):
            return False
        best = dict(failure, tag=v.tag, message=v.message,
                    choices=list(data.choices), notes=data.notes)
        return True

    improved = True
    while improved and time.time() < end:
        improved = False
        size = max(1, len(best["choices"]) // 2)
        while size:
            i = len(best["choices"]) - size
            while i >= 0 and time.time() < end:
                c = best["choices"]
                if attempt(c[:i] + c[i + size:]):
                    improved = True
                elif any(c[i:i + size]) and attempt(c[:i] + [0] * size + c[i + size:]):
                    improved = True
                i -= size
            size //= 2
        i = 0
        while i < len(best["choices"]) and time.time() < end:
            lo, hi = 0, best["choices"][i]
            while lo < hi and time.time() < end:
                mid = (lo + hi) // 2
                c = list(best["choices"])
                if i >= len(c):
                    break
                c[i] = mid
                if attempt(c):
                    improved = True
                    hi = mid
                else:
                    lo = mid + 1
            i += 1
    return best


def run_parallel(prop, parts, tier, seed, nshards, known, verbose=True):
    stop_at = time.time() + WALL_CAP[tier]
    tmp = tempfile.mkdtemp(prefix="pbt-%s-" % prop)
    pids = []
    try:
        for s in range(nshards):
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 70
                try:
                    work = os.path.join(tmp, "work%d" % s)
                    os.mkdir(work)
                    os.chdir(work)
                    res = run_shard(prop, parts, tier, seed, s, nshards, known, stop_at)
                    byname = {p.name: p for p in parts}
                    if res["failures"] and s == 0 or res["failures"]:
                        res["failures"] = [shrink(byname[f["part"]], f, known)
                                           for f in res["failures"][:1]]
                    with open(os.path.join(tmp, "out%d" % s), "wb") as f:
                        pickle.dump(res, f)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            pids.append(pid)
        bad = 0
        for pid in pids:
            _, status = os.waitpid(pid, 0)
            if status != 0:
                bad += 1
        outs = []
        for s in range(nshards):
            path = os.path.join(tmp, "out%d" % s)
            if os.path.exists(path):
                with open(path, "rb") as f:
                    outs.append(pickle.load(f))
        return outs, bad
    finally:
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)


def merge(outs):
    parts, failures, known, inconclusive = {}, [], {}, False
    for o in outs:
        inconclusive = inconclusive or o["inconclusive"]
        for name, st in o["parts"].items():
            m = parts.setdefault(name, {"evaluations": 0, "labels": {}, "keys": set(),
                                        "samples": [], "cases_planned": st["cases_planned"]})
            m["evaluations"] += st["evaluations"]
            m["keys"] |= st["keys"]
            m["samples"] += st["samples"]
            for k, v in st["labels"].items():
                m["labels"][k] = m["labels"].get(k, 0) + v
        failures += o["failures"]
        for k, v in o["known"].items():
            known[k] = known.get(k, 0) + v
    failures.sort(key=lambda f: (len(f["choices"]), f["part"], f["index"]))
    return parts, failures, known, inconclusive


def jsonable(x):
    return json.loads(json.dumps(x, default=repr, ensure_ascii=True))
