from pbt.core import Check
from pbt.model import *
from pbt import vtt

BAD = ["", "\n", "webvtt\n\n", " WEBVTT\n\n", "\nWEBVTT\n", "1\n00:00:01.000 --> 00:00:02.000\nx\n", "WEBVT\n", "WEB VTT\n", "NOTE\nWEBVTT\n", "VTT", "\ufeff", "W"]


class CHECK(Check):
    id = "C04"
    rule = ("documents built from a random abstract WebVTT document (header, notes, metadata blocks, cues) and documents with another first line; "
            "non-trivial: at least one cue with text and another block, or a cue of several rows, or a bad header")
    quick = 160000
    thorough = 3000000
    assumptions = ["cues carry no settings and times state the hours", "'-->' does not occur in metadata or cue text, and no metadata line or identifier begins with NOTE"]

    def gen(self, s):
        d = vtt.g_doc(s)
        if s.flag(1, 12):
            d["head"] = s.pick(["webvtt", " WEBVTT", "", "WEBVT", "1", "\tWEBVTT", "xWEBVTT", "WEB", "Webvtt", "NOTE", "-WEBVTT"])
        return self.long(s, d, "blocks")

    def fixed(self, tier):
        return [{"raw": b} for b in BAD] + self.longest(vtt.g_doc, "blocks", 25000 if tier == "quick" else 70000)

    def run(self, doc, env):
        if "raw" in doc:
            data, good, exp = doc["raw"].encode("utf8"), False, []
        else:
            doc = self.whole(doc, "blocks")
            data, good = vtt.render(doc).encode("utf8"), doc["head"].startswith("WEBVTT")
            exp = vtt.expected(doc)
            for b in doc["blocks"]:
                self.label("block " + b["k"])
            self.label("line separator", any(len(r) > 1 for b in doc["blocks"] if b["k"] == "cue" for r in b["rows"]))
        self.label("bad header", not good)
        self.nontrivial(not good or (len(exp) > 0 and len(doc["blocks"]) > 1) or len(exp) > 1)
        r = read(env, "vtt", "file" if len(data) % 3 == 0 or len(data) > 1000000 else "string", data)
        if not good:
            m = None if r.get("err") == "WebVTTHeaderError" else "a document that does not start with WEBVTT gives %r" % r
        else:
            m = expect_ok(r) or compare_runs(exp, r["ok"]["subs"], drop_empty=True)
            if not m and r["ok"]["meta"]:
                m = "unexpected metadata"
        return m and "%s\ndocument: %r" % (m, data[:5000])
