from pbt.core import Check
from pbt.model import *
from pbt import ssa

SKIP = {"hp": (0.0, HCENTRE), "vp": (None, None, None, None)}


class CHECK(Check):
    id = "C02"
    rule = ("scripts built from a random abstract script (resolution, styles, permuted and incomplete Format lines, other sections, events with text, breaks, "
            "supported and unsupported override tags); non-trivial: at least one Dialogue with text, and an override tag, a break, or a style of its own")
    quick = 160000
    thorough = 3000000
    assumptions = ["Text is the last field of the events' Format; style names are defined without '*'; one style section; \\i, \\b and \\u carry 0 or 1",
                   "white space at the two ends of an event's text is not significant"]

    def gen(self, s):
        return self.long(s, ssa.g_doc(s), "events")

    def fixed(self, tier):
        return self.longest(ssa.g_doc, "events", 20000 if tier == "quick" else 70000)

    def run(self, doc, env):
        doc = self.whole(doc, "events")
        data = ssa.render(doc).encode("utf8")
        exp = [r for e in ssa.expected(doc) for r in e]
        tags = {t[0] for e in doc["events"] for c in e["text"] if c[0] == "tags" for t in c[1]}
        for t in tags:
            self.label("tag " + t)
        self.label("other sections", bool(doc["other"]))
        self.label("permuted event format", doc["ef"][:3] != ["Layer", "Start", "End"])
        self.label("styles %d" % min(3, len(doc["styles"])))
        self.nontrivial(bool(exp) and (bool(tags) or bool(doc["styles"]) or len(exp) > 1))
        r = read(env, "ssa", "file" if len(data) % 3 == 0 or len(data) > 1000000 else "string", data)
        m = expect_ok(r)
        if not m:
            subs = r["ok"]["subs"]
            for x in subs:
                x["hp"], x["vp"] = [0.0, HCENTRE], [None] * 4
            m = compare_runs([dict(e, **SKIP) for e in exp], subs, do_merge=False)
        return m and "%s\ndocument: %r" % (m, data[:5000])
