"""WebVTT documents: an abstract syntax, its rendering and its meaning."""
from pbt.core import Src
from pbt.model import *

SEP = "\u2028"
TEXTS = ["<i>x</i>", "NOTE", "NOTE x", "<b", "&amp;", "{\\an8}", "WEBVTT", "STYLE", "1", "00:00:01.000", "- ", "::cue", "->", "--", "<v Ann>", "</font>", "00:00:01.000 -- > 00:00:02.000", " ", "  "]
META = ["STYLE", "::cue { color: red }", "REGION", "id:fred width:40%", "X-TIMESTAMP-MAP=LOCAL:00:00:00.000,MPEGTS:900000", "Kind: captions", "Region: id=a", "lines:3", "}", "x", "00:00:01.000", "1", "/* c */"]
NOTES = ["00:00:01.000 --> 00:00:02.000", "fake text", "00:00:01.000 --> 00:00:02.000 align:left", "x --> y", "-->", "NOTE again", "WEBVTT", "TODO", "1"]


def fix(t):
    while "-->" in t:
        t = t.replace("-->", "--")
    return t or "x"


def g_row(s):
    return [fix(words(s, TEXTS)) if not s.flag(1, 20) else " " for _ in range(s.size(1, 3, 30) if s.flag(1, 5) else 1)]


def g_cue(s):
    a, b = span(s, 120)
    ids = [x for x in [s.pick([None, None, "1", "cue-12", "intro x", "Note", "00:01", "\u00e9", "NOTES", "NOTE-1 x", "MY NOTE", "a NOTE\tb", " NOTE", "note", "NOTE:", "STYLEs", "WEBVTT"])] if x is not None]
    return {"k": "cue", "id": ids, "from": a, "to": b, "g1": s.pick([" ", " ", "  "]), "g2": s.pick([" ", " ", "   "]), "tail": s.pick(["", "", " ", "  "]),
            "rows": s.list(g_row, 0 if s.flag(1, 12) else 1, 5, 0.5, 40), "gap": s.pick([1, 1, 1, 2, 3])}


def g_block(s):
    k = s.n(8)
    if k < 5:
        return g_cue(s)
    if k < 7:
        first = s.pick(["NOTE", "NOTE a comment", "NOTE 00:00:01.000 --> 00:00:02.000", "NOTE x", "NOTE\tx"])
        return {"k": "note", "lines": [first] + s.list(lambda s: s.pick(NOTES), 0, 4, 0.6, 30), "gap": s.pick([1, 1, 2])}
    return {"k": "meta", "lines": s.list(lambda s: s.pick(META), 1, 4, 0.6, 30), "gap": s.pick([1, 1, 2])}


def g_doc(s):
    return {"bom": s.flag(1, 6), "head": s.pick(["WEBVTT", "WEBVTT", "WEBVTT - title", "WEBVTT\tx", "WEBVTT "]), "headlines": s.list(lambda s: s.pick(META), 0, 3, 0.3),
            "gap": s.pick([1, 1, 2]), "blocks": s.list(g_block, 0, 8, 0.7, 60), "end": s.n(3)}


def r_time(t):
    return "%02d:%02d:%02d.%03d" % tuple(t)


def block_lines(b):
    if b["k"] != "cue":
        return list(b["lines"])
    return b["id"] + [r_time(b["from"]) + b["g1"] + "-->" + b["g2"] + r_time(b["to"]) + b["tail"]] + [SEP.join(r) for r in b["rows"]]


def render(doc, nl="\n"):
    L = [doc["head"]] + doc["headlines"] + [""] * doc["gap"]
    for n, b in enumerate(doc["blocks"]):
        L += block_lines(b)
        L += [""] * (b["gap"] if n < len(doc["blocks"]) - 1 else doc["end"])
    return ("\ufeff" if doc["bom"] else "") + nl.join(L)


def cue_runs(b):
    out, n = [], 0
    for r in b["rows"]:
        for t in r:
            out.append(run(t, b["from"], b["to"], vp=(None, n, None, TOP_OF_SUB)))
            n += 1
    return out


def expected(doc):
    return [r for b in doc["blocks"] if b["k"] == "cue" for r in cue_runs(b)]
