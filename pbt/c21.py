import os
from fractions import Fraction as F
from pbt.core import Check, txt
from pbt import docs, iso, wr, srt
from pbt.c07 import as_subs

OK = set(iso.PRINTABLE)


def plain(t):
    """the text with what ISO 6937 has no place for replaced"""
    return "".join(c if c in OK else "?" for c in t)


def restrict(d):
    """the document with representable text, times below 24 h, and its placement fixed for whole events"""
    fmt, doc = d["fmt"], d["doc"]
    if fmt == "srt":
        for c in doc["cues"]:
            for k in ("from", "to"):
                c[k] = [c[k][0] % 23] + list(c[k][1:])
            place = [t for r in c["rows"] for t in r if t[0] in ("an", "pos")][:1]
            c["rows"] = [[["b", True, "<b>"] if t[0] in ("an", "pos") else [t[0], plain(t[1]) if t[0] == "t" else t[1]] + list(t[2:]) for t in r] for r in c["rows"]]
            if place and c["rows"]:
                c["rows"][0].insert(0, place[0])
    elif fmt == "vtt":
        for b in doc["blocks"]:
            if b["k"] == "cue":
                for k in ("from", "to"):
                    b[k] = [b[k][0] % 23] + list(b[k][1:])
                b["rows"] = [[plain(t) for t in r] for r in b["rows"]]
    elif fmt == "ssa":
        for e in doc["events"]:
            for k in ("start", "end"):
                e[k] = [e[k][0] % 23] + list(e[k][1:])
            text = [[c[0], plain(c[1])] if c[0] == "t" else c for c in e["text"]]
            pos = [c for c in text if c[0] == "tags" and any(t[0] == "pos" for t in c[1])]
            e["text"] = [["tags", [["b", 1, "\\b1"]]] if c in pos else c for c in text]
            if pos:
                e["text"].insert(0, pos[0])
    else:
        for x in doc["subs"]:
            for k in ("from", "to"):
                if x[k][:3] == [23, 59, 59]:
                    x[k][3] = 0
    return d


def secs(t):
    return (t[0] * 60 + t[1]) * 60 + t[2] + F(t[3]) / 1000


class CHECK(Check):
    id = "C21"
    rule = ("SubRip, SSA/ASS, WebVTT and binary STL documents with representable text, read, collected, written as binary STL at one of four rates and read back; the characters with their "
            "styles, times and rows are compared with the model of the document, and rows, justification and structure with what was collected; non-trivial: several rows in a "
            "subtitle and a style or justification, or at least three subtitles")
    quick = 40000
    thorough = 1200000
    assumptions = ["times are below 24 h; placement tags stand at the start of an event; events that overlap exactly may share rows"]

    def gen(self, s):
        d = docs.gen(s, s.pick(["srt", "ssa", "vtt", "stlbin"]))
        return {"d": restrict(d), "src": s.pick(docs.SOURCES[d["fmt"]]), "head": dict(wr.DEFAULT_HEAD, fps=s.pick(wr.FPS))}

    def run(self, c, env):
        d, fmt = c["d"], c["d"]["fmt"]
        self.label(fmt)
        r = env.drv.call("pipe", fmt, c["src"], docs.render(d), *wr.head_tokens(os.path.join(env.scratch, "p.stl"), c["head"]))
        if "ok" not in r:
            return "conversion of a well-formed document fails: %s\ndocument: %r" % (str(r)[:300], docs.render(d)[:2500])
        m = self.judge(c, r["ok"])
        return m and "%s\ndocument: %r" % (m, docs.render(d)[:2500])

    def judge(self, c, ok):
        d, fmt = c["d"], c["d"]["fmt"]
        rate = wr.rate_of(c["head"]["fps"])
        mid = as_subs(ok["mid"])
        self.nontrivial(len(mid) > 2 or any(len(x["lines"]) > 1 for x in mid) and any(b["i"] or b["u"] for x in mid for l in x["lines"] for b in l["blocks"]))
        m = wr.compare(mid, ok["read"]["subs"], rate)
        if m:
            return m
        # against the document itself: every character with its style, times and row
        runs = [x for x in docs.expected(d) if x["text"]]
        runs.sort(key=lambda x: secs(x["from"]))
        want = []
        for n, x in enumerate(runs):
            row = x["row"] if fmt == "ssa" else x["vp"][1]
            for ch in x["text"]:
                want.append((ch, x["i"], x["u"], x, row))
        got = []
        for x in ok["read"]["subs"]:
            for ch in txt(x["text"]):
                got.append((ch, x["biu"][1] == "I", x["biu"][2] == "U", x))
        for n, (a, b) in enumerate(zip(want, got)):
            if a[:3] != b[:3]:
                return "character %d (of %r) is %r, italic %r, underline %r; read back (in %r) as %r, %r, %r" % ((n, a[3]["text"]) + a[:3] + (txt(b[3]["text"]),) + b[:3])
        if len(want) != len(got):
            return "%d characters, read back as %d" % (len(want), len(got))
        for n, (a, b) in enumerate(zip(want, got)):
            for k in ("from", "to"):
                if abs(secs(a[3][k]) - wr.read_instant(b[3][k])) > F(1, 2) / rate + F(3, 2000):
                    return "%r: %s %r read back as %s" % (a[3]["text"], k, a[3][k], b[3][k][4])
            if n and want[n - 1][3]["from"] == a[3]["from"] and want[n - 1][3]["to"] == a[3]["to"] and want[n - 1][4] is not None and got[n - 1][3] is not b[3]:
                # within one cue: a new row exactly when the document has one
                p, q = got[n - 1][3]["vp"][1], b[3]["vp"][1]
                if want[n - 1][4] != a[4] and fmt != "stlbin":
                    if p == q:
                        return "%r and %r, of rows %r and %r, are both on row %d" % (want[n - 1][3]["text"], a[3]["text"], want[n - 1][4], a[4], p)
        return None
