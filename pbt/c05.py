from pbt.core import Check
from pbt.model import *
from pbt import stlt


class CHECK(Check):
    id = "C05"
    rule = ("files built from a random list of subtitle lines (rows, toggles, commas, spacing), settings, comments and unrecognised lines; non-trivial: a subtitle with "
            "text and a toggle, several rows, a setting or an unrecognised line before it")
    quick = 160000
    thorough = 3000000
    assumptions = ["'^' is always followed by B, I or U; a subtitle's text does not end in white space; toggles act within their subtitle and settings until changed"]

    def gen(self, s):
        return self.long(s, stlt.g_doc(s), "e")

    def fixed(self, tier):
        return self.longest(stlt.g_doc, "e", 25000 if tier == "quick" else 70000)

    def run(self, doc, env):
        doc = self.whole(doc, "e")
        data = stlt.render(doc).encode("utf8")
        exp = stlt.expected(doc)
        kinds = [e["k"] for e in doc["e"]]
        for k in set(kinds):
            self.label("line " + k)
        toks = {t[0] for e in doc["e"] if e["k"] == "sub" for t in e["toks"]}
        for t in toks:
            self.label("token " + t)
        self.label("no final terminator", not doc["nl"] and bool(kinds))
        self.nontrivial("sub" in kinds and (len(toks) > 1 or len(set(kinds)) > 1))
        r = read(env, "stltext", "fstream" if len(data) % 5 == 0 else "stream", data)
        m = expect_ok(r) or compare_runs(exp, r["ok"]["subs"])
        if not m and r["ok"]["meta"]:
            m = "unexpected metadata"
        return m and "%s\ndocument: %r" % (m, data[:5000])
