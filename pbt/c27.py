"""Operations repeated in one process: what it holds must not grow."""
import os
from pbt.core import Check
from pbt import docs, wr
from pbt.c17 import CHECK as C17

TIMES = 5


class CHECK(Check):
    id = "C27"
    rule = ("one to four operations (reads of all formats, half of them damaged; openings by name; ISO 6937 conversions; collections, writes, a third of them refused or cut short; conversions; dumps; "
            "table look-ups), done %d times over in one process; the bytes it has allocated and the files it has open are counted after each time, and must not be more "
            "after each of the last three times than before it; the directory must then hold only the files asked for; non-trivial: every case" % TIMES)
    quick = 12000
    thorough = 400000
    restart_every = 500
    assumptions = ["AddressSanitizer's allocator counts all allocations made in the process", "the first two times may fill caches"]

    def setup(self, env):
        self.ops = C17()

    def g_bad_write(self, s):
        o = {"op": "write", "head": wr.g_head(s), "subs": wr.g_subs(s) or wr.g_subs(s)}
        k = s.n(7)
        if k == 6:
            o["gone"] = 1
        elif k == 0:
            # too long a subtitle, after good ones
            if o["subs"]:
                x = s.pick(o["subs"])
                if x["lines"]:
                    x["lines"][0]["blocks"].append({"text": "x" * 28000, "i": 0, "u": 0})
        elif k == 1:
            o["head"] = dict(o["head"], fps=s.pick([12.0, 1000.0, 0.0, -25.0, 60.0]))
        elif k == 2:
            o["head"] = dict(o["head"], **{s.pick(wr.FIELDS32): "x" * s.int(32, 34)})
        elif k == 3:
            o["head"] = dict(o["head"], cd=s.pick(["", "2001010", "20010"]))
        elif k == 4 and o["subs"]:
            # beyond what a time code can say
            x = s.pick(o["subs"])
            x["to"] = ["m", s.pick([24, 99, 100, 256, 1000]), 0, 0, 0, 1000, 1]
        else:
            o["limit"] = s.pick([0, 1023, 1024, 1025, 1100, 1152])
        return o

    def g_op(self, s):
        k = s.n(5)
        if k == 0:
            return self.g_bad_write(s)
        if k == 1:
            d = docs.gen(s)
            return {"op": "read", "doc": d, "edits": docs.g_edits(s), "src": s.pick(docs.SOURCES[d["fmt"]])}
        return self.ops.g_op(s, [])

    def gen(self, s):
        return [self.g_op(s) for _ in range(s.int(1, 4))]

    def tokens(self, o, name):
        if "gone" in o:
            name = "gone/" + name
        class Rec:
            def call(self, *a, fork=False):
                self.a = a
        r = Rec()
        C17.call(self.ops, r, o, False)
        a = [name if x in ("w.stl", "p.stl") else x for x in r.a]
        if "limit" in o:
            a = ["writelim", o["limit"]] + a[1:]
        return a

    def run(self, c, env):
        self.nontrivial()
        req = []
        for n, o in enumerate(c):
            t = self.tokens(o, "w%d.stl" % n)
            req += [t[0], len(t) - 1] + t[1:]
            self.label(o["op"])
        before = set(os.listdir(env.scratch))
        r = env.drv.call("repeat", TIMES, len(c), *req)["ok"]
        how, use = r[0], r[1:]
        self.label("failed operations", "e" in how)
        for n, o in enumerate(c):
            if "limit" in o or how[n] == "e":
                self.label("refused " + o["op"], o["op"] == "write")
        for what, u in (("bytes allocated", use[0::2]), ("open files", use[1::2])):
            if all(b > a for a, b in zip(u[TIMES - 4:], u[TIMES - 3:])):
                return "%s after each of %d times: %r (operations %s: %s)" % (what, TIMES, u, [o["op"] for o in c], how)
        left = set(os.listdir(env.scratch)) - before - {"w%d.stl" % n for n in range(len(c))} - {"fstream.dat", "driver.err"}
        if left:
            return "files were left behind: %r" % sorted(left)
        return None
