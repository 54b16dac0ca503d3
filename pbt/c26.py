"""Operations on unrelated objects in several threads at once."""
import os
from pbt.core import Check, Driver
from pbt import docs, wr
from pbt.c17 import CHECK as C17


class CHECK(Check):
    id = "C26"
    rule = ("two to four threads, each with one to four operations of its own (reads of all formats, a third of them damaged; ISO 6937 conversions; writes; conversions; table look-ups; "
            "openings), or all using one reader and one list of subtitles without changing them, started together in a process that has done nothing before and that "
            "ThreadSanitizer watches; each result is compared with that of the same operation alone; non-trivial: every case")
    technique = "property-based testing: generated concurrent programs with ThreadSanitizer and a differential oracle (each operation alone)"
    targets = ["driver", "tsan"]
    quick = 5000
    thorough = 60000
    restart_every = 60
    replay_times = 40
    assumptions = ["ThreadSanitizer's happens-before analysis: a race is reported when both accesses are made without synchronisation in the observed run, in whichever order",
                   "code inside the system's shared libraries is not instrumented"]

    def setup(self, env):
        d = os.path.join(env.scratch, "tsan")
        os.makedirs(d, exist_ok=True)
        self.tsan = Driver(env.exes["tsan"], d)
        env.extra.append(self.tsan)
        self.ops = C17()

    def gen(self, s):
        if s.flag(1, 4):
            return {"shared": docs.gen(s, s.pick(["srt", "vtt", "ssa", "stlbin"])),
                    "threads": [["".join(s.pick("rcwdes") for _ in range(s.int(1, 4))), wr.g_head(s)] for _ in range(s.int(2, 4))]}
        out, same = [], s.flag(1, 3)
        for n in range(s.int(2, 4)):
            ops = []
            for _ in range(s.int(1, 4)):
                o = self.ops.g_op(s, [])
                ops.append(o)
            out.append([s.pick([0, 0, 100, 10000, 100000]), ops])
        if same:
            # the first thing each does is the same
            for x in out[1:]:
                x[1][0] = out[0][1][0]
        return {"threads": out}

    def tokens(self, o, name):
        """an operation as the driver is told it: its name and its arguments"""
        class Rec:
            def call(self, *a, fork=False):
                self.a = a
        r = Rec()
        C17.call(self.ops, r, o, False)
        return [name if a in ("w.stl", "p.stl") else a for a in r.a]

    def run(self, c, env):
        self.nontrivial()
        if "shared" in c:
            f = c["shared"]["fmt"]
            d = [f, docs.SOURCES[f][0], docs.render(c["shared"])]
            r = self.tsan.call("shared", *d, len(c["threads"]), *[x for n, (w, h) in enumerate(c["threads"]) for x in [w] + wr.head_tokens("s%d.stl" % n, h)], fork=True)
            self.label("shared")
            for n, (w, h) in enumerate(c["threads"]):
                a = env.drv.call("shared", *d, 1, w, *wr.head_tokens("s%d.stl" % n, h))
                if "err" in r or "err" in a:
                    if r != a:
                        return "%r, but alone %r" % (r, a)
                    continue
                m = self.differ(r["ok"][n], a["ok"][0], "thread %d (%s)" % (n, w))
                if m:
                    return m
            return None
        req, alone = [], []
        for n, (delay, ops) in enumerate(c["threads"]):
            req += [delay, len(ops)]
            for o in ops:
                self.label(o["op"])
                t = self.tokens(o, "w%d.stl" % n)
                alone.append(t)
                req += [t[0], len(t) - 1] + t[1:]
        r = self.tsan.call("threads", len(c["threads"]), *req, fork=True)
        res = [x for l in r["ok"] for x in l]
        if len(res) != len(alone):
            return "results are missing"
        for a, t in zip(res, alone):
            b = env.drv.call(*t)
            self.label("failed", "err" in b)
            m = self.differ(a, b, "operation %s" % t[0])
            if m:
                return m
        return None

    def differ(self, a, b, what):
        if a == b:
            return None
        a, b = str(a), str(b)
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        i = max(0, i - 60)
        return "%s gives ...%s... with other threads at work and ...%s... alone" % (what, a[i:i + 300], b[i:i + 300])
