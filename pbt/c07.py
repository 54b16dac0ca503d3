import os
from fractions import Fraction as F
import random
from pbt.core import Check, Src, txt
from pbt import wr, stltables as T
from pbt.model import expect_ok


def as_subs(collected):
    """collected subtitles as given to the writer again"""
    out = []
    for x in collected:
        def t(js):
            m = list(map(int, wr.TIME_RE.match(js[4]).groups()))
            return ["r"] + m
        out.append({"from": t(x["from"]), "to": t(x["to"]),
                    "lines": [{"hp": l["hp"], "vp": l["vp"], "blocks": [{"text": txt(b["text"]), "i": b["biu"][1] == "I", "u": b["biu"][2] == "U"} for b in l["blocks"]]}
                              for l in x["lines"]]})
    return out


class CHECK(Check):
    id = "C07"
    rule = ("lists of up to 6 subtitles of up to 5 rows (positions as proportions or rows of any grid, from any reference, known and unknown, in and out of "
            "order, on and off the screen), times in milliseconds or frames at many rates, four file rates, texts of 0 to many blocks, styles, header fields; "
            "written, read back, collected, and written and read again; non-trivial: several rows or more than 112 bytes of text, and a style change")
    quick = 50000
    thorough = 1600000
    assumptions = ["texts over the representable repertoire without line breaks", "times below 24 h after rounding"]

    def gen(self, s):
        return self.long(s, {"head": wr.g_head(s), "subs": wr.g_subs(s, 0, 6)}, "subs")

    def fixed(self, tier):
        big = []
        for n in (127 * 112, 128 * 112, 129 * 112 + 1, 200 * 112, 240 * 112 + 1, 241 * 112 - 1):
            s = Src(random.Random(n))
            c = {"head": wr.g_head(s), "subs": wr.g_subs(s, 2, 3)}
            c["subs"][0]["lines"] = [{"hp": [0.0, 1], "vp": [0.5, None, None, 0], "blocks": [{"text": "".join(chr(0x61 + k % 26) for k in range(n)), "i": 0, "u": 0}]}]
            big.append(c)
        return big + self.longest(lambda s: {"head": wr.g_head(s), "subs": wr.g_subs(s, 0, 6)}, "subs", 12000 if tier == "quick" else 30000)

    def run(self, c, env):
        c = self.whole(c, "subs")
        if "times" in c:
            # subtitles that begin together would be collected into one that is too long
            n = len(c["subs"])
            step = 80000 // n

            def at(k):
                return ["m", k // 3600, k // 60 % 60, k % 60, k % 1000, 1000, 1]
            c = dict(c, subs=[dict(x, **{"from": at(k * step), "to": at(k * step + 1)}) for k, x in enumerate(c["subs"])])
        subs, h = c["subs"], c["head"]
        rate = wr.rate_of(h["fps"])
        ps = [wr.pieces(x) for x in subs]
        long = any(sum(len(p[1]) for p in x) > 112 for x in ps)
        self.nontrivial((long or any(len({p[0] for p in x}) > 1 for x in ps)) and any(p[2] or p[3] for x in ps for p in x))
        self.label("more than one block", long)
        self.label("known rows", any(wr.row_choices(x["lines"]) for x in subs))
        self.label("unknown rows", any(wr.row_choices(x["lines"]) is None for x in subs))
        self.label("several rows", any(len(x["lines"]) > 1 for x in subs))
        r = env.drv.call("writeback", *(wr.head_tokens(os.path.join(env.scratch, "o.stl"), h) + wr.sub_tokens(subs)))
        m = expect_ok(r)
        if m:
            return m
        ok = r["ok"]
        m = wr.compare(subs, ok["read"]["subs"], rate)
        if m:
            return m
        meta = ok["read"]["meta"]
        for k, key in (("opt", "Original programme title"), ("oet", "Original episode title"), ("tpt", "Translated programme title"),
                       ("tet", "Translated episode title"), ("tn", "Translator name"), ("tc", "Translator contact details"), ("pub", "Publisher"),
                       ("en", "Editor name"), ("ec", "Editor contact details")):
            want = h[k].encode().ljust(32).decode("latin1")
            if meta[key] != want:
                return "%s %r read back as %r" % (key, want, meta[key])
        for k, key in (("cd", "Creation date"), ("rd", "Revision date"), ("co", "Country of origin")):
            if meta[key] != h[k]:
                return "%s %r read back as %r" % (key, h[k], meta[key])
        if meta["Revision number"] != "%02d" % h["rev"] or meta["Language"] != T.LANGUAGES[h["lang"]][1]:
            return "revision %r, language %r read back" % (meta["Revision number"], meta["Language"])
        if "again" in ok:
            again = as_subs(ok["collected"])
            m = wr.compare(again, ok["again"]["subs"], rate)
            if m:
                return "written and read again: " + m
            keys = [(x["from"], x["to"]) for x in again]
            for x in again:
                for p in (x["from"], x["to"]):
                    pass
            # times are exactly kept
            a, b = wr.read_pieces(ok["again"]["subs"]), []
            want = [(x["from"], x["to"]) for x in again for _ in wr.pieces(x)]
            if sum(len(x["lines"]) <= wr.ROWS + 1 for x in again) == len(again) and len(want) == len(a):
                for (f, t), (key, _, r2) in zip(want, a):
                    if wr.read_instant(r2["from"]) != wr.instant(f) or wr.read_instant(r2["to"]) != wr.instant(t):
                        return "times changed when written and read again: %r %r became %s %s" % (f, t, key[0], key[1])
        return None
