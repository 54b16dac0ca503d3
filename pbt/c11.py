from fractions import Fraction as F
import math, struct
from pbt.core import Check, fbits, f32

FAR = [60, 3600, 86400, 1, 10, 128, 256, 32768, 65536, 2 ** 20, 2 ** 24, 10 ** 6, 10 ** 8, 12 * 3600]
RATES = [(24, 1), (25, 1), (30, 1), (48, 1), (50, 1), (60, 1), (100, 1), (120, 1), (1000, 1), (24000, 1001), (30000, 1001), (60000, 1001),
         (12, 1), (15, 1), (96, 1), (2997, 100), (23976, 1000), (48000, 1001), (24000, 1000), (50, 2), (48000, 2000)]
INT = [r for r in RATES if r[0] % r[1] == 0]


def g_time(s, kinds="nrmf", maxh=100):
    k = s.pick(kinds)
    h, m, sec = s.edge(0, maxh - 1, 1, 23, 24), s.edge(0, 59), s.edge(0, 59)
    if k == "n":
        return ["n", h, m, sec, s.edge(0, 29), 0, 1]
    if k == "m":
        return ["m", h, m, sec, s.edge(0, 999, 1, 500), 1000, 1]
    r = s.pick(RATES if k == "r" else INT)
    if k == "f":
        n = r[0] // r[1]
        return ["f", 0, 0, 0, s.edge(0, min(maxh * 3600 * n, 2 ** 31 - 1), n, n - 1, n * 60), r[0], r[1]]
    return ["r", h, m, sec, s.edge(0, math.ceil(F(*r)) - 1), r[0], r[1]]


def spec(t):
    return "%s,%d,%d,%d,%d,%d,%d" % tuple(t)


def parts(t):
    """whole seconds, frames, rate (None when unknown)"""
    if t[0] == "f":
        n = t[5] // t[6]
        return t[4] // n, t[4] % n, F(t[5], t[6])
    return (t[1] * 60 + t[2]) * 60 + t[3], t[4], (None if t[0] == "n" else F(t[5], t[6]))


def instant(t):
    s, f, r = parts(t)
    return s + F(f) / r


def near_round(x, v):
    """v is x rounded to the nearest integer (either way at a half, allowing for binary representation)"""
    return abs(F(v) - x) <= F(1, 2) + F(1, 10 ** 9)


class CHECK(Check):
    id = "C11"
    rule = ("one to four random times (with no rate, with a rate, in milliseconds, from a frame count), often equal or one unit apart, all "
            "observers and all ordered pairs, or a random sequence of additions and scalings; non-trivial: two different frame rates are "
            "compared, or an operation carries over a second, or a missing rate must be reported")
    quick = 120000
    thorough = 2400000
    assumptions = ["times are normalised (frames below the rate, minutes and seconds below 60)", "0 to 100 hours in sums and products, 0 to 250000 hours otherwise"]

    def gen(self, s):
        mode = s.n(3)
        if mode < 2:
            ts = [g_time(s, maxh=100 if not s.flag(1, 16) else s.pick([1000, 100000]))]
            for _ in range(s.n(4)):
                k = s.n(4)
                if k == 0:
                    ts.append(g_time(s))
                else:
                    # close to an earlier one: the same instant, or one unit away, at another rate
                    b = s.pick(ts)
                    sec, f, r = parts(b)
                    q = s.pick(RATES)
                    fr = F(f) / (r or 25)
                    nf = int(fr * F(*q)) + s.n(3) - 1
                    top = math.ceil(F(*q)) - 1
                    nf = max(0, min(nf, top))
                    if s.flag(1, 8):
                        sec += s.n(2)
                    if s.flag(1, 8):
                        # the same time of another minute, hour, day or wrapped counter
                        sec += s.pick(FAR)
                        if s.flag():
                            nf = min(f, top)
                    ts.append(["r", sec // 3600, sec // 60 % 60, sec % 60, nf, q[0], q[1]])
            return {"times": ts, "at": [list(s.pick(RATES)) for _ in range(s.int(1, 3))]}
        same = s.flag()
        r = s.pick(INT)
        kinds = "mrf"

        def t1(maxh):
            if same:
                return ["r", s.edge(0, maxh - 1), s.edge(0, 59), s.edge(0, 59), s.edge(0, r[0] // r[1] - 1), r[0], r[1]]
            t = g_time(s, "m" if s.flag() else "r", maxh)
            if t[5] % t[6]:
                t[4:] = [s.edge(0, r[0] // r[1] - 1), r[0], r[1]]
            return t
        start = t1(5) if not s.flag(1, 12) else g_time(s, "n", 5)
        steps = []
        for _ in range(s.int(1, 4)):
            if s.flag():
                steps.append(["s", f32(s.pick([1.0, 0.5, 2.0, 0.1, 10.0, 24 / 25, 25 / 24, 1.001, 1 / 1.001, 0.999, 1.5]) if s.flag() else s.int(100, 10000) / 1000)])
            else:
                steps.append(["a", t1(5) if not s.flag(1, 12) else g_time(s, "n", 5)])
            hours = start[1] + 1
            for k, v in steps:
                hours = hours * v if k == "s" else hours + v[1] + 1
            if hours > 100:
                steps.pop()
        return {"start": start, "steps": steps}

    def run(self, c, env):
        return self.run_times(c, env) if "times" in c else self.run_arith(c, env)

    def run_times(self, c, env):
        ts = c["times"]
        r = env.drv.call("times", " ".join(spec(t) for t in ts), " ".join("%d/%d" % tuple(q) for q in c["at"]))["ok"]
        for t, o in zip(ts, r["t"]):
            sec, f, rate = parts(t)
            if o[:3] != [sec // 3600, sec // 60 % 60, sec % 60]:
                return "%s: hours, minutes, seconds are %r" % (t, o[:3])
            st = "%02d:%02d:%02d:%d" % (sec // 3600, sec // 60 % 60, sec % 60, f)
            if rate is not None:
                st += " @ %d/%d" % ((1000, 1) if t[0] == "m" else (t[5], t[6]))
            if o[3] != st:
                return "%s: printed as %r, expected %r" % (t, o[3], st)
            if rate is None:
                self.label("no rate")
                self.nontrivial()
                for x in [o[4], o[5]] + o[6]:
                    if x != {"err": "UnknownFrameRateError"}:
                        return "%s has no frame rate but an operation that needs one gave %r" % (t, x)
                continue
            frac = F(f) / rate
            if not isinstance(o[4], int) or not near_round(frac * 1000, o[4]):
                return "%s: milliseconds() is %r, exact value %s" % (t, o[4], float(frac * 1000))
            if not isinstance(o[5], (int, float)) or abs(F(o[5]) - (sec + frac)) > F(51, 100000):
                return "%s: all_as_seconds() is %r, exact value %s" % (t, o[5], float(sec + frac))
            for q, v in zip(c["at"], o[6]):
                if not isinstance(v, int) or not near_round(frac * F(*q), v):
                    return "%s: frames at %d/%d is %r, exact value %s" % (t, q[0], q[1], v, float(frac * F(*q)))
        k = 0
        for a in ts:
            for b in ts:
                lt, eq, gt, ne = r["c"][k]
                k += 1
                ra, rb = parts(a)[2], parts(b)[2]
                if ra is None and rb is None:
                    x, y = parts(a)[:2], parts(b)[:2]
                elif ra is None or rb is None:
                    # equality of different whole seconds needs no rate, so only those cases must report the error
                    want = {"err": "UnknownFrameRateError"}
                    if parts(a)[0] == parts(b)[0]:
                        self.label("unknown rate comparison")
                        if lt != want or gt != want or eq != want or ne != want:
                            return "%s compared with %s: %r" % (a, b, [lt, eq, gt, ne])
                    continue
                else:
                    x, y = instant(a), instant(b)
                    if ra != rb:
                        self.nontrivial()
                        self.label("rates differ")
                        self.label("equal instants at different rates", x == y)
                if [lt, eq, gt, ne] != [x < y, x == y, x > y, x != y]:
                    return "%s compared with %s: < %s, == %s, > %s, != %s" % (a, b, lt, eq, gt, ne)
        return None

    def run_arith(self, c, env):
        f = [spec(c["start"])]
        for k, v in c["steps"]:
            f += [k, str(fbits(v)) if k == "s" else spec(v)]
        r = env.drv.call("timearith", " ".join(f))["ok"]
        cur = c["start"]
        sec, fr, rate = parts(cur)
        for (k, v), o in zip(c["steps"], r):
            orate = None if k == "s" else parts(v)[2]
            if rate is None or (k == "a" and orate is None):
                self.label("missing rate")
                self.nontrivial()
                if not isinstance(o, dict):
                    return "%s on a time without a frame rate gave %r instead of an error" % (k, o)
                continue
            if isinstance(o, dict):
                return "step %s %s of %s failed: %r" % (k, v, c, o)
            if not o[4].count(" @ "):
                return "the result of %s has no rate: %r" % (k, o)
            exact = sec + F(fr) / rate
            if k == "s":
                want, nr = exact * F(v), rate
                # half a frame, after half a millisecond in the operand
                tol = 1 / (2 * rate) + F(51, 100000) * F(v) + F(1, 10 ** 6)
            else:
                nr = max(rate, orate)
                osec, ofr, _ = parts(v)
                want = exact + osec + F(ofr) / orate
                if rate == orate and (nr <= 120 or nr == 1000):
                    tol = F(0)
                else:
                    tol = 1 / (2 * nr) + F(102, 100000)
            frames = int(o[4].split(" @ ")[0].split(":")[3])
            n, d = o[4].split(" @ ")[1].split("/")
            if F(int(n), int(d)) != nr:
                return "step %s %s: the result is at rate %s/%s, expected %s" % (k, v, n, d, nr)
            if not (0 <= frames < nr and 0 <= o[1] < 60 and 0 <= o[2] < 60):
                return "step %s %s from %s: not a properly carried time: %r" % (k, v, c, o)
            got = (o[0] * 60 + o[1]) * 60 + o[2] + F(frames) / nr
            self.nontrivial(int(want) != int(exact))
            self.label("add" if k == "a" else "scale")
            self.label("add exact", k == "a" and tol == 0)
            if abs(got - want) > tol:
                return "step %s %s from %s: got %s, expected %s within %s" % (k, v, c, float(got), float(want), float(tol))
            sec, fr, rate = (o[0] * 60 + o[1]) * 60 + o[2], frames, nr
        return None
