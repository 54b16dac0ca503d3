import random
from pbt.core import Check, Src
from pbt import stlbin
from pbt.model import compare_runs, expect_ok


class CHECK(Check):
    id = "C06"
    rule = ("whole binary STL files from an independent encoder: all header fields, up to 8 subtitles of up to 5 rows with control codes, the whole Latin "
            "repertoire, comment and user data blocks, extension blocks (full and short), rubbish after unused space, rows beyond the maximum; "
            "non-trivial: at least two subtitles, at least one with several rows or blocks, and at least one control code")
    quick = 60000
    thorough = 2500000
    assumptions = ["Latin code table; justification codes 0 to 3; no new-line code after the last text of a subtitle"]

    def gen(self, s):
        return {"doc": self.long(s, stlbin.g_doc(s), "subs"), "src": s.pick(["stream", "file", "fstream"])}

    def fixed(self, tier):
        # subtitles of very many blocks, up to the most there can be
        big = []
        for n in (127 * 112, 128 * 112, 129 * 112 + 1, 200 * 112, 240 * 112 + 1, 241 * 112 - 1, 241 * 112):
            d = stlbin.g_doc(Src(random.Random(n)), 2, 4)
            d["subs"][1].update({"kind": "", "cuts": [], "junk": [], "rows": [[["t", [0x61 + k % 26 for k in range(n)]]]]})
            big.append({"doc": d, "src": "stream"})
        # files of very many blocks; there are five digits for their number
        for src, n in (("stream", 99999), ("file", 20000 if tier == "quick" else 99999)):
            for d in self.longest(stlbin.g_doc, "subs", 1):
                d["times"] = n // sum(len(stlbin.tti(x)) for x in d["subs"])
                big.append({"doc": d, "src": src})
        return big

    def run(self, c, env):
        d = c["doc"]
        if "times" in d:
            d = dict(d, times=min(d["times"], 99999 // max(1, sum(len(stlbin.tti(x)) for x in d["subs"]))))
        d = self.whole(d, "subs")
        if "times" in d:
            # a subtitle repeated has the same number each time
            d["subs"] = [dict(x, open=0) for x in d["subs"]]
        real = [x for x in d["subs"] if x["kind"] == ""]
        multi = any(len(x["rows"]) > 1 or len(stlbin.tti(x)) > 1 for x in real)
        codes = any(i[0] in "iuc" for x in real for r in x["rows"] for i in r)
        self.nontrivial(len(real) > 1 and multi and codes)
        self.label("extension blocks", any(len(stlbin.tti(x)) > 1 for x in real))
        self.label("short extension blocks", any(x["cuts"] for x in real))
        self.label("user data among blocks", any(x.get("between") for x in real))
        self.label("no last block", any(x.get("open") for x in real))
        self.label("comments", any(x["kind"] == "comment" for x in d["subs"]))
        self.label("user data", any(x["kind"] == "user" for x in d["subs"]))
        self.label("rows moved up", any(x["vp"] + len(x["rows"]) - 1 > stlbin.rows_max(d["gsi"]) for x in real))
        self.label(d["gsi"]["dfc"])
        r = env.drv.call("read", "stlbin", c["src"], stlbin.render(d))
        m = expect_ok(r)
        if m:
            return m
        exp = [x for runs in stlbin.expected(d) for x in runs]
        return compare_runs(exp, r["ok"]["subs"], drop_empty=True) or stlbin.compare_header(d, r["ok"])
