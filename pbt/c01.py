from pbt.core import Check
from pbt.model import *
from pbt import srt


class CHECK(Check):
    id = "C01"
    rule = ("documents built from a random abstract SubRip document (cues, rows, markup tokens, U+2028, U+202B, layout noise); "
            "non-trivial: at least one cue with both text and markup, or with two or more rows")
    quick = 150000
    thorough = 3000000
    assumptions = ["well-formed means: three-digit milliseconds, one SSA tag per {\\}, <font> with a hexadecimal or rgba() colour",
                   "how a row is cut into runs of equal style is not observed"]

    def gen(self, s):
        return self.long(s, srt.g_doc(s), "cues")

    def fixed(self, tier):
        return self.longest(srt.g_doc, "cues", 25000 if tier == "quick" else 70000)

    def run(self, doc, env):
        doc = self.whole(doc, "cues")
        data = srt.render(doc).encode("utf8")
        for c in doc["cues"]:
            kinds = {t[0] for r in c["rows"] for t in r}
            self.nontrivial("t" in kinds and (len(kinds) > 1 or len(c["rows"]) > 1))
            for k in kinds:
                self.label("token " + k)
            self.label("rows>1", len(c["rows"]) > 1)
        self.label("cues %d" % min(len(doc["cues"]), 4))
        exp = srt.expected(doc)
        src = "file" if len(data) % 3 == 0 or len(data) > 1000000 else "string"
        r = read(env, "srt", src, data)
        m = expect_ok(r)
        if not m:
            m = compare_runs(exp, r["ok"]["subs"])
            if not m and r["ok"]["meta"]:
                m = "unexpected metadata %r" % r["ok"]["meta"]
        return m and "%s\ndocument (%s): %r" % (m, src, data[:5000])
