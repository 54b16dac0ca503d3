from pbt.core import Check, txt
from pbt import docs, iso, wr

NAMES = ["de_DE.UTF-8", "fr_FR.UTF-8", "tr_TR.UTF-8", "tr_TR.ISO-8859-9", "en_US.ISO-8859-1", "ps_AF.UTF-8", "de_CH.UTF-8", "zh_CN.GB18030"]
MODES = ["both", "c", "c++"]
# numbers as another locale would write them
TIMES = ["1.000:00:00,000", "0:1.0:0,000", "00:00:1.000,000", "1,000:00:00.000", "00:00:00,1.000", "00:1'000:00,000", "1\u202f000:00:00,000", "00:00:00,1,000", "1 000:00:00,000"]
TEXTS = ["\u00a0", "\u00a0x", "x\u00a0", "\u00e0", "voil\u00e0", "\u0160", "\u0130I\u0131i", "\u2026", "\u3000", "\u0085x", "\u00c5", "x\u0105", "\u00df", "ISTANBUL", "Istanbul"]


class CHECK(Check):
    id = "C16"
    rule = ("documents of all formats (a fifth of them damaged; fractional positions and sizes, upper-case tags, large numbers, text that begins or ends with characters whose bytes are "
            "spaces or letters in other encodings), ISO 6937 conversions and written files, each done in the C locale and in one of eight others set in the C library, in C++, or both; "
            "subtitles, metadata, bytes and kinds of error must agree; non-trivial: at least one run, converted character or written subtitle")
    targets = ["driver", "locales"]
    quick = 60000
    thorough = 900000
    assumptions = ["eight locales stand for all: comma, dot and multi-byte decimal points, several grouping marks, Turkish case rules, 8-bit and multi-byte encodings",
                   "the wording of error messages may differ, their kind, line and context may not"]

    def setup(self, env):
        self.other = env.driver(env={"LOCPATH": env.exes["locales"]})

    def gen(self, s):
        c = {"loc": s.pick(NAMES), "mode": s.pick(MODES)}
        k = s.n(10)
        if k < 7:
            d = docs.gen(s)
            c["op"] = "read"
            c["doc"] = d
            c["edits"] = docs.g_edits(s) if s.flag(1, 5) else []
            c["text"] = [[s.n(1001), s.pick(TEXTS)] for _ in range(s.int(1, 3))] if s.flag() else []
            c["time"] = [s.n(1001), s.pick(TIMES)] if s.flag(1, 12) else None
            c["src"] = s.pick(docs.SOURCES[d["fmt"]])
        elif k == 7:
            c["op"] = "iso"
            c["items"] = [["d", [s.n(256) for _ in range(s.int(0, 12))]] if s.flag() else ["e", [s.pick([s.n(128), s.n(0x180), s.n(0x2200), ord(s.pick("Ii\u0130\u0131\u00df"))]) for _ in range(s.int(0, 12))]]
                          for _ in range(s.int(1, 4))]
        elif k == 8:
            c["op"] = "write"
            c["head"] = wr.g_head(s)
            c["subs"] = wr.g_subs(s)
        else:
            c["op"] = "tables"
            c["t"] = [s.pick([["rate2dfc", str(s.pick([0x41bfced9, 0x41c00000, 0x41c80000, 0x41f00000]))], ["dfc2rate", s.pick(["STL23.01", "STL24.01", "STL25.01", "STL30.01", "STL23,01"])],
                              ["language_f2e", s.pick(["1A", "1a", "0F", "0f"])], ["language_d2e", s.pick(["Irish", "irish", "ITALIAN", "Italian", "Icelandic"])]]) for _ in range(s.int(1, 4))]
        return c

    def args(self, c, env):
        op = c["op"]
        if op == "read":
            b = docs.edit(docs.render(c["doc"]), c["edits"])
            L = b.split(b"\n") if c["doc"]["fmt"] != "stlbin" else [b]
            if len(L) > 1:
                for at, t in c["text"]:
                    x = at * len(L) // 1001
                    if L[x].startswith((b"Dialogue", b" Dialogue", b"Style")) or b"-->" not in L[x] and L[x].strip() and not L[x].startswith((b"[", b"Format")):
                        L[x] += t.encode("utf8")
                if c["time"]:
                    x = c["time"][0] * len(L) // 1001
                    L[x:x] = [b"", b"1", c["time"][1].encode("utf8") + b" --> 00:00:09,000", b"x", b""]
            return ["read", c["doc"]["fmt"], c["src"], b"\n".join(L)]
        if op == "iso":
            a = []
            for k, v in c["items"]:
                a += [k, bytes(v) if k == "d" else " ".join(map(str, v))]
            return ["iso", len(c["items"])] + a
        if op == "tables":
            return ["tables", len(c["t"])] + [x for t in c["t"] for x in t]
        return None

    def run(self, c, env):
        loc = self.other.call("locale", c["loc"], c["mode"])
        if "ok" not in loc:
            raise RuntimeError("cannot set the locale: %r" % loc)
        self.label(c["op"])
        self.label(c["loc"])
        try:
            if c["op"] == "write":
                r = []
                for d in (env.drv, self.other):
                    r.append(d.call("write", *wr.head_tokens(d.scratch + "/l.stl", c["head"]), *wr.sub_tokens(c["subs"])))
                self.nontrivial(len(c["subs"]) > 0)
                if r[0] == r[1] or "err" in r[0] and "err" in r[1] and r[0]["err"] == r[1]["err"]:
                    return None
                a, b = [x.get("ok", x) for x in r]
                if isinstance(a, str) and isinstance(b, str):
                    n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                    return "in locale %s (%s) the file written differs from byte %d on: %r, in the C locale %r" % (c["loc"], c["mode"], n, b[n:n + 20], a[n:n + 20])
                return "in locale %s (%s) writing gives %r, in the C locale %r" % (c["loc"], c["mode"], str(b)[:300], str(a)[:300])
            a = self.args(c, env)
            r = [d.call(*a) for d in (env.drv, self.other)]
        finally:
            self.other.call("locale", "C", "both")
        if c["op"] == "read":
            o = [docs.outcome(x) for x in r]
            self.nontrivial(o[0][0] == "ok" and len(o[0][1]) > 0)
            self.label("read " + c["doc"]["fmt"])
            self.label("rejected", o[0][0] == "err")
            for x in o:
                if x[0] == "err":
                    x[2] = None
            m = docs.differ(o[0], o[1])
            return m and "in the C locale, or in %s (%s): %s\ndocument: %r" % (c["loc"], c["mode"], m, a[3][:2500])
        self.nontrivial()
        if r[0] != r[1]:
            return "%r gives %r in the C locale, %r in %s (%s)" % (a, str(r[0])[:400], str(r[1])[:400], c["loc"], c["mode"])
        return None
