"""A small choice-sequence property tester, and the client of harness/driver."""
import json, os, random, select, signal, struct, subprocess, sys, tempfile, time, traceback
from hashlib import blake2b


# ---------------------------------------------------------------- choice source

class Src:
    """Every random decision of a generator is one integer drawn here and recorded; 0 is always the
    simplest choice, so shrinking works on the recorded sequence alone."""
    __slots__ = ("rng", "rec", "pre", "i")

    def __init__(self, rng=None, pre=None):
        self.rng, self.pre, self.rec, self.i = rng, pre, [], 0

    def n(self, k):
        """an integer in [0, k)"""
        if self.pre is not None:
            v = self.pre[self.i] if self.i < len(self.pre) else 0
            if v >= k:
                v = k - 1
        else:
            v = int(self.rng.random() * k)
        self.i += 1
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.n(hi - lo + 1)

    def edge(self, lo, hi, *special):
        """lo..hi, with extra weight on the ends and on special values"""
        k = self.n(4)
        if k == 3:
            c = [lo, hi, lo + 1, hi - 1] + list(special)
            v = c[self.n(len(c))]
            return v if lo <= v <= hi else lo
        return lo + self.n(hi - lo + 1)

    def flag(self, num=1, den=2):
        """True with probability num/den; False is simplest"""
        return self.n(den) >= den - num

    def pick(self, seq):
        return seq[self.n(len(seq))]

    def size(self, lo, hi, big, den=64):
        """lo..hi, now and then up to big"""
        if self.n(den) == den - 1:
            return self.int(lo, big)
        return self.int(lo, hi)

    def list(self, f, lo=0, hi=5, more=0.6, big=0, den=64):
        """a list of lo..hi items; continuing with probability more. Now and then, as many as big of them."""
        if big and self.n(den) == den - 1:
            return [f(self) for _ in range(self.int(lo, big))]
        out = []
        m = int(more * 100)
        while len(out) < hi:
            if len(out) >= lo and self.n(100) < 100 - m:
                break
            out.append(f(self))
        return out

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.n(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


# ---------------------------------------------------------------- driver client

class Crash(Exception):
    """the process under test died or stopped answering"""

    def __init__(self, msg, hang=False):
        Exception.__init__(self, msg)
        self.hang = hang


def fbits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


class Driver:
    def __init__(self, exe, scratch, env=None, timeout=60):
        self.exe, self.scratch, self.timeout = exe, scratch, timeout
        self.env = dict(os.environ, **(env or {}))
        self.env["LC_ALL"] = "C"
        self.p = None
        self.calls = 0

    def start(self):
        self.errpath = os.path.join(self.scratch, "driver.err")
        self.err = open(self.errpath, "wb")
        self.p = subprocess.Popen([self.exe, self.scratch], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=self.env, bufsize=0, cwd=self.scratch, start_new_session=True)
        self.fd_out = self.p.stdout.fileno()
        self.fd_in = self.p.stdin.fileno()

    def stop(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    restart = stop

    def _died(self):
        try:
            rc = self.p.wait(10)
        except subprocess.TimeoutExpired:
            rc = None
        self.stop()
        try:
            t = open(self.errpath, "rb").read().decode("latin1")
        except OSError:
            t = ""
        keep = [l for l in t.splitlines() if ("ERROR" in l or "WARNING: ThreadSanitizer" in l or "SUMMARY: ThreadSanitizer" in l or "runtime error" in l or "ssert" in l or "terminate" in l
                                             or "what()" in l or " in sub::" in l or "driver:" in l)][:6]
        raise Crash("the process died (exit status %s): %s" % (rc, " | ".join(keep) or t[-300:]))

    def _read(self, n):
        out = b""
        end = time.time() + self.timeout
        while len(out) < n:
            r, _, _ = select.select([self.fd_out], [], [], max(0, end - time.time()))
            if not r:
                self.stop()
                raise Crash("no answer within %d s" % self.timeout, hang=True)
            d = os.read(self.fd_out, n - len(out))
            if not d:
                self._died()
            out += d
        return out

    def call(self, op, *args, fork=False):
        if not self.p:
            self.start()
        self.calls += 1
        toks = [b"f" if fork else b"", op.encode()]
        for a in args:
            toks.append(a if isinstance(a, bytes) else str(a).encode("utf8"))
        body = b"".join(struct.pack("<I", len(t)) + t for t in toks)
        msg = struct.pack("<I", len(body)) + body
        try:
            o = 0
            while o < len(msg):
                o += os.write(self.fd_in, msg[o:o + 65536])
        except BrokenPipeError:
            self._died()
        n = struct.unpack("<I", self._read(4))[0]
        return json.loads(self._read(n))


def txt(s):
    """driver string (latin-1 escaped bytes) -> text, invalid UTF-8 kept visible"""
    return s.encode("latin1").decode("utf8", "backslashreplace")


# ---------------------------------------------------------------- check base

class Check:
    id = None
    rule = ""
    technique = ""
    note = ""
    quick = 4000        # cases in total, over all workers
    thorough = 60000
    restart_every = 250
    replay_times = 1
    targets = ["driver"]
    assumptions = []

    def __init__(self):
        self.labels = {}
        self.nontriv = False

    # overridable
    def setup(self, env):
        pass

    def fixed(self, tier):
        """cases that are always run (small enumerations)"""
        return []

    def gen(self, s):
        raise NotImplementedError

    def run(self, case, env):
        """None, or a message saying how the property fails on this case"""
        raise NotImplementedError

    def label(self, name, on=True):
        if on:
            self.labels[name] = self.labels.get(name, 0) + 1

    def long(self, s, doc, key, odds=4000):
        """now and then makes doc a long one, by repeating the entries it has under key"""
        if doc[key] and s.flag(1, odds):
            doc["times"] = s.int(2, 400)
        return doc

    def longest(self, gen, key, entries):
        """a fixed case that is a very long document"""
        k = 0
        while True:
            k += 1
            doc = gen(Src(random.Random(k)))
            if len(doc[key]) > 3:
                return [dict(doc, times=entries // len(doc[key]) + 1)]

    def whole(self, doc, key):
        """the document that a case stands for"""
        if "times" not in doc:
            return doc
        self.label("long document")
        return dict(doc, **{key: doc[key] * doc["times"]})

    def nontrivial(self, on=True):
        if on:
            self.nontriv = True


class Env:
    def __init__(self, exes, scratch, tier):
        self.exes, self.scratch, self.tier = exes, scratch, tier
        self.drv = Driver(exes["driver"], scratch) if "driver" in exes else None
        self.extra = []

    def driver(self, **kw):
        """another driver process, e.g. with another environment"""
        d = os.path.join(self.scratch, "d%d" % len(self.extra))
        os.makedirs(d, exist_ok=True)
        x = Driver(self.exes["driver"], d, **kw)
        self.extra.append(x)
        return x

    def reset(self):
        if self.drv:
            self.drv.restart()
        for x in self.extra:
            x.restart()

    def set_timeout(self, t):
        for x in [self.drv] + self.extra:
            if x:
                x.timeout = t


def attempt(check, case, env):
    """-> (failure message or None, was it a hang)"""
    try:
        return check.run(case, env), False
    except Crash as e:
        return str(e), e.hang
    except (KeyError, IndexError, TypeError, ValueError, AttributeError):
        # an answer of a shape no correct library gives
        return "unexpected kind of result: " + traceback.format_exc(limit=-3), False


def run_sequence(check, cases, env):
    """all cases in one fresh process; the verdict is that of the last one that fails"""
    env.reset()
    for c in cases:
        m, _ = attempt(check, c, env)
        if m:
            return m
    return None


def fails(check, cases, env):
    """run_sequence, more than once where the outcome depends on how threads are scheduled"""
    for _ in range(check.replay_times):
        m = run_sequence(check, cases, env)
        if m:
            return m
    return None


def shrink(check, rec, case, env, seconds=40, evals=3000):
    """minimise a recorded choice sequence; every candidate is judged in whatever process state there is,
    and the caller re-validates the result in a fresh process"""
    end = time.time() + seconds
    best, best_case = list(rec), case
    count = 0
    seen = set()

    def bad(cand):
        nonlocal count, best, best_case
        key = tuple(cand)
        if key in seen or time.time() > end or count > evals:
            return False
        seen.add(key)
        count += 1
        s = Src(pre=cand)
        try:
            c = check.gen(s)
        except Exception:
            return False
        used = s.rec
        if len(used) > len(best) or (len(used) == len(best) and used >= best):
            return False
        # what depends on scheduling must keep failing readily
        m, hang = attempt(check, c, env)
        for _ in range(2 if check.replay_times > 1 and m else 0):
            m = m and attempt(check, c, env)[0]
        if m:
            best, best_case = list(used), c
            return True
        return False

    improved = True
    while improved and time.time() < end and count <= evals:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if bad(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += size
                if time.time() > end or count > evals:
                    return best, best_case, count
            size //= 2
        for i in range(len(best)):
            if i >= len(best):
                break
            v = best[i]
            if v == 0:
                continue
            if bad(best[:i] + [0] + best[i + 1:]):
                improved = True
                continue
            lo, hi = 0, v
            while hi - lo > 1:
                m = (lo + hi) // 2
                if i < len(best) and bad(best[:i] + [m] + best[i + 1:]):
                    improved = True
                    hi = m
                else:
                    lo = m
            if time.time() > end or count > evals:
                break
    return best, best_case, count


def worker(check, env, seed, wi, nw, ncases, out, stopfile, budget):
    t0 = time.time()
    check.setup(env)
    rng = random.Random(seed * 1000003 + wi * 7919 + 17)
    evals, distinct, samples, history = 0, set(), [], []
    failure, flaky = None, []

    def one(case, rec):
        nonlocal evals, failure
        check.nontriv = False
        if len(history) >= check.restart_every:
            env.reset()
            history.clear()
        m, hang = attempt(check, case, env)
        evals += 1
        history.append(case)
        if check.nontriv or m:
            distinct.add(blake2b(repr(case).encode("utf8", "surrogatepass"), digest_size=8).digest())
            if len(samples) < 3 or (len(samples) < 6 and evals % 97 == 0):
                samples.append(case)
        if m:
            f = minimise(check, env, case, rec, list(history), m, hang)
            if "flaky" in f and len(flaky) < 8:
                # keep looking for a case that fails again
                flaky.append(f)
                return False
            failure = f
            return True
        return False

    for k, case in enumerate(check.fixed(env.tier)):
        if k % nw == wi and one(case, None):
            break
    n = 0
    while not failure and n < ncases:
        if n % 8 == 0 and (os.path.exists(stopfile) or time.time() - t0 > budget):
            break
        s = Src(rng)
        case = check.gen(s)
        n += 1
        if one(case, s.rec):
            break
    failure = failure or (flaky[0] if flaky else None)
    if failure:
        open(stopfile, "w").close()
    env.reset()
    with open(out, "w") as f:
        json.dump({"evals": evals, "distinct": [d.hex() for d in distinct], "samples": samples, "labels": check.labels,
                   "failure": failure, "complete": n >= ncases}, f)


def minimise(check, env, case, rec, history, msg, hang):
    """-> {"cases": [...], "message": ...}: a sequence of cases that fails in a fresh process"""
    if hang:
        env.set_timeout(15)
    m = fails(check, [case], env)
    if m is None:
        # depends on what ran before in the same process: keep the shortest suffix of the history that fails
        m2 = run_sequence(check, history, env) if check.replay_times == 1 else None
        if m2 is None:
            return {"cases": [case], "message": msg, "flaky": True}
        seq = history
        k = len(seq) // 2
        while k >= 1:
            i = 0
            while i < len(seq) - 1:
                cand = seq[:i] + seq[min(i + k, len(seq) - 1):]
                mm = run_sequence(check, cand, env)
                if mm:
                    seq, m2 = cand, mm
                else:
                    i += k
            k //= 2
        return {"cases": seq, "message": m2}
    if rec is not None:
        _, small, _ = shrink(check, rec, case, env, seconds=45 if not hang else 90)
        mm = run_sequence(check, [small], env)
        if mm and check.replay_times > 1:
            mm = fails(check, [small], env) and fails(check, [small], env)
        if mm:
            case, m = small, mm
    return {"cases": [case], "message": m}
