from pbt.core import Check, txt
from pbt import docs, iso, wr


class CHECK(Check):
    id = "C17"
    rule = ("histories of 2 to 12 operations (reads of all formats, a third of them damaged; ISO 6937 conversions of arbitrary bytes and characters; writes; collections; table look-ups; "
            "dumps; openings by name), some of them repeats of earlier ones; each result from the process with the history is compared with that of the same operation as the first "
            "of a process; non-trivial: every history")
    quick = 5000
    thorough = 220000
    restart_every = 60
    assumptions = ["a process forked before any library call stands for a fresh process"]

    def setup(self, env):
        self.fresh = env.driver()

    def g_op(self, s, before):
        k = s.n(17)
        if before and k == 13:
            return {"op": "again", "n": s.n(len(before))}
        if k < 6:
            d = docs.gen(s)
            return {"op": "read", "doc": d, "edits": docs.g_edits(s) if s.flag(1, 3) else [], "src": s.pick(docs.SOURCES[d["fmt"]])}
        if k < 9:
            return {"op": "iso", "items": [["d", [s.pick([s.n(256), s.pick(iso.DIA_CODES), s.int(0xc0, 0xcf), s.int(0x20, 0x7e)]) for _ in range(s.int(0, 8))]] if s.flag() else
                                           ["e", [s.pick([s.n(128), s.n(0x250), s.n(0x10000), s.int(0x300, 0x32f)]) for _ in range(s.int(0, 8))]] for _ in range(s.int(1, 4))]}
        if k < 11:
            o = {"op": "write", "head": wr.g_head(s), "subs": wr.g_subs(s)}
            if s.flag(1, 4):
                self.refused(s, o)
            return o
        if k in (14, 15):
            d = docs.gen(s, s.pick(["srt", "stlbin", "stltext"]))
            ext = s.pick([".srt" if d["fmt"] == "srt" else ".stl", ".srt", ".stl", ".SRT", ".Stl", ".txt", ""])
            return {"op": "open", "name": s.pick(["x", "x", "-gone"]) + ext, "doc": d, "edits": docs.g_edits(s) if s.flag(1, 3) else []}
        if k == 16:
            d = docs.gen(s)
            return {"op": "dump", "doc": d, "edits": [], "src": s.pick(docs.SOURCES[d["fmt"]])}
        if k == 11:
            return {"op": "pipe", "doc": docs.gen(s, s.pick(["srt", "vtt", "ssa", "stlbin"])), "head": wr.g_head(s)}
        return {"op": "tables", "t": [s.pick([["dfc2rate", s.pick(["STL23.01", "STL25.01", "x"])], ["language_f2e", "%02X" % s.n(256)], ["language_d2e", s.pick(["Irish", "Klingon"])],
                                              ["language_e2f", str(s.n(100))], ["comment_f2e", str(s.n(3))]]) for _ in range(s.int(1, 4))]}

    def refused(self, s, o):
        """Make a write that cannot be done: what it leaves behind must not reach the next one."""
        k = s.n(3)
        if k == 0:
            o["head"] = dict(o["head"], **{s.pick(wr.FIELDS32): "x" * s.int(33, 90)})
        elif k == 1:
            o["dir"] = 1
        else:
            b = [b for x in o["subs"] for l in x["lines"] for b in l["blocks"]]
            if b:
                s.pick(b)["text"] = s.pick(["long ", "z", "\u00e9"]) * s.pick([26993, 28000, 60000])

    def gen(self, s):
        ops = []
        for _ in range(s.int(2, 12)):
            ops.append(self.g_op(s, ops))
        return ops

    def call(self, d, o, fork):
        k = o["op"]
        if k == "open":
            return d.call("open", o["name"], docs.edit(docs.render(o["doc"]), o["edits"]), fork=fork)
        if k in ("read", "dump"):
            return d.call(k, o["doc"]["fmt"], o["src"], docs.edit(docs.render(o["doc"]), o["edits"]), fork=fork)
        if k == "iso":
            a = []
            for w, v in o["items"]:
                a += [w, bytes(v) if w == "d" else " ".join(map(str, v))]
            return d.call("iso", len(o["items"]), *a, fork=fork)
        if k == "write":
            return d.call("write", *wr.head_tokens("missing/w.stl" if o.get("dir") else "w.stl", o["head"]), *wr.sub_tokens(o["subs"]), fork=fork)
        if k == "pipe":
            f = o["doc"]["fmt"]
            return d.call("pipe", f, docs.SOURCES[f][0], docs.render(o["doc"]), *wr.head_tokens("p.stl", o["head"]), fork=fork)
        return d.call("tables", len(o["t"]), *[x for t in o["t"] for x in t], fork=fork)

    def run(self, ops, env):
        self.nontrivial()
        ops = list(ops)
        for n, o in enumerate(ops):
            self.label(o["op"])
            if o["op"] == "again":
                o = ops[n] = ops[o["n"]]
                if o["op"] == "again":
                    continue
            a = self.call(env.drv, o, False)
            b = self.call(self.fresh, o, True)
            self.label("failed", "err" in a)
            if a != b:
                a, b = str(a), str(b)
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                i = max(0, i - 60)
                return "operation %d (%s) gives ...%s... after the others and ...%s... in a fresh process\noperation: %r" % (n, o["op"], a[i:i + 300], b[i:i + 300], str(o)[:1500])
        return None
