"""Operations during which the allocator fails."""
import os
from pbt.core import Check, Driver
from pbt import c10, docs, wr
from pbt.c17 import CHECK as C17

KINDS = ("read", "iso", "write", "pipe", "open", "dump")


class CHECK(Check):
    id = "C28"
    rule = ("one operation (a read of any format, a quarter of them damaged; an opening by name; an ISO 6937 conversion; a collection, write, conversion or dump) done again and again, each time with "
            "one allocation refused, or that and all later ones, at up to twelve points spread over the operation; or, in a new process, the first operation of which fails in this way; "
            "it must end with an exception derived from std::exception (for a dump also with a failed stream) or the result it has otherwise, the memory and files held afterwards must not grow "
            "when it is repeated, and the operation must then work as ever; non-trivial: some allocation was refused")
    technique = "property-based testing with generated fault injection (allocation failures) and a differential oracle (the same operation without the failure)"
    targets = ["driver", "oom"]
    quick = 12000
    thorough = 120000
    restart_every = 400
    assumptions = ["allocations that do not go through operator new (stdio's, say) do not fail"]

    def setup(self, env):
        d = os.path.join(env.scratch, "oom")
        os.makedirs(d, exist_ok=True)
        self.oom = Driver(env.exes["oom"], d)
        env.extra.append(self.oom)
        self.ops = C17()
        self.collect = c10.CHECK()

    def g_op(self, s):
        k = s.n(8)
        if k == 0:
            return {"op": "collect", "raws": self.collect.gen(s)["raws"]}
        if k == 1:
            return {"op": "iso", "items": [["d", [s.n(256) for _ in range(s.int(0, 40))]] if s.flag() else ["e", [s.n(0x250) for _ in range(s.int(0, 40))]] for _ in range(s.int(1, 3))]}
        if k == 2:
            d = docs.gen(s, s.pick(["srt", "stlbin", "stltext"]))
            return {"op": "open", "name": s.pick(["x", "x", "-gone"]) + (".srt" if d["fmt"] == "srt" else ".stl"), "doc": d, "edits": []}
        if k == 3:
            return {"op": "write", "head": wr.g_head(s), "subs": wr.g_subs(s)}
        if k == 4:
            return {"op": "pipe", "doc": docs.gen(s, s.pick(["srt", "vtt", "ssa", "stlbin"])), "head": wr.g_head(s)}
        d = docs.gen(s)
        return {"op": "dump" if k == 5 else "read", "doc": d, "edits": docs.g_edits(s) if s.flag(1, 4) else [], "src": docs.SOURCES[d["fmt"]][s.n(2) if d["fmt"] != "stltext" else 0]}

    def gen(self, s):
        op = self.g_op(s)
        if s.flag(1, 4):
            return {"op": op, "cold": [s.pick("or") + str(s.edge(0, 600, 1, 2, 20)) for _ in range(s.int(1, 3))]}
        return {"op": op, "points": [s.pick("or") + str(s.n(100000)) for _ in range(s.int(1, 12))]}

    def tokens(self, o):
        if o["op"] == "collect":
            return ["collect", "vector"] + c10.raw_tokens(o["raws"])
        class Rec:
            def call(self, *a, fork=False):
                self.a = a
        r = Rec()
        C17.call(self.ops, r, o, False)
        return list(r.a)

    def run(self, c, env):
        t = self.tokens(c["op"])
        cold = "cold" in c
        pts = c["cold"] if cold else c["points"]
        self.label(c["op"]["op"])
        self.label("first in the process", cold)
        r = self.oom.call("oom", int(cold), " ".join(pts), *t, fork=cold)["ok"]
        for k, how, same, failed, growth, fds in r["points"]:
            self.nontrivial(failed > 0)
            self.label("ended well", how == "o" and failed > 0)
            self.label("ended with an exception", how == "e" and failed > 0)
            what = "allocation %d of %d of the operation %s was refused" % (k, r["total"], c["op"]["op"])
            if how == "x":
                return what + ", and something that is not a std::exception was thrown"
            if how == "s" and c["op"]["op"] != "dump":
                return what + ", and a stream failed"
            if not same:
                return what + ", and it returned a different result"
            if growth > 0:
                return what + ", and at least %d bytes are lost each time this happens" % growth
            if fds > 0:
                return what + ", and %d files stay open" % fds
        if not r["same"] or r["how"] != r["last"]:
            return "the operation %s no longer gives the same result after allocations were refused" % c["op"]["op"]
        if cold:
            x = env.drv.call("oom", 0, "", *t)["ok"]
            if x["last"] != r["last"] or x["now"] != r["now"]:
                a, b = str(r["now"]), str(x["now"])
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                return "the operation %s gives ...%s... after it failed for lack of memory as the first of the process, and ...%s... otherwise" % (c["op"]["op"], a[max(0, i - 60):i + 200], b[max(0, i - 60):i + 200])
        return None
