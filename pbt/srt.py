"""SubRip documents: an abstract syntax, its rendering and its meaning."""
import re
from pbt.core import Src
from pbt.model import *

SEP = "\u2028"
RLE = "\u202b"

# text that looks like markup but is not, and may touch markup on either side
TRICKY = ["<<", "a<b", "{x}", "<x>", "</", "2 < 3", "{", "}", ">", "<", "/b>", "</ b>", "<br>", "[b]", "{y:i}", "x\\y", "\\N", "&lt;", "<script>", "1>", "{ b}", "</fon", "<b", "{i", "--", "->",
          "00:00:01,000", "12"]
# characters that could complete a piece of text to a tag are kept from following it directly
OPENERS = re.compile(r"(?i)[<{]/?([biu]?|f|fo|fon|font)$")


def colour(s):
    return [s.edge(0, 255, 127, 128, 16, 15) for _ in range(3)]


def case(s, t):
    k = s.n(4)
    if k == 0:
        return t
    if k == 1:
        return t.upper()
    if k == 2:
        return t.capitalize() if t[:1].isalpha() else t
    return "".join(c.upper() if i % 2 else c for i, c in enumerate(t))


def g_font(s):
    c = colour(s)
    kind = s.n(4)
    hx = "%02x%02x%02x" % tuple(c)
    if s.flag(1, 3):
        hx = hx.upper()
    if kind == 3:
        v = "\"rgba(%s)\"" % ",".join(s.pick(["", " ", "  "]) + str(x) + s.pick(["", " "]) for x in c + [s.n(256)])
    else:
        if kind == 2:
            hx += "%02x" % s.n(256)
        q = s.pick(["\"", "'", ""])
        v = q + "#" + hx + q
    before = s.pick(["", "face=\"Arial\" ", "size=\"12\" "])
    after = s.pick(["", " size=\"20\"", " face='X'"])
    return ["font", c, "<" + case(s, "font") + " " + before + "color=" + v + after + ">"]


ACCIDENT = re.compile(r"(?i)[<{](/?)([biu][>}]|font|\\)")


def g_text(s):
    t = words(s, TRICKY)
    while ACCIDENT.search(t):
        t = ACCIDENT.sub("<\\1 x", t)
    return t


def g_token(s, ssa=True):
    k = s.n(14 if ssa else 10)
    if k < 5:
        return ["t", g_text(s)]
    if k < 8:
        w = s.pick("ibu")
        on = s.n(2) == 0
        o, c = s.pick([("<", ">"), ("{", "}")])
        return [w, on, o + ("" if on else "/") + case(s, w) + c]
    if k == 8:
        return g_font(s) if s.n(3) else ["unfont", None, "</" + case(s, "font") + ">"]
    if k == 9:
        return s.pick([["sep", None, SEP], ["rle", None, RLE], ["unfont", None, "</font>"]])
    if k == 10:
        w = s.pick("ibu")
        on = s.n(2) == 0
        return [w, on, "{\\%s%d}" % (w, on)]
    if k == 11:
        n = s.int(1, 9)
        return ["an", n, "{\\an%d}" % n]
    if k == 12:
        if s.flag(1, 4):
            return ["c", [255, 255, 255], "{\\c}"]
        c = colour(s)
        return ["c", c, "{\\c&H%02x%02x%02x&}" % (c[2], c[1], c[0])]
    if s.flag():
        n = s.edge(1, 288)
        return ["fs", n, "{\\fs%d}" % n]
    x, y = s.edge(0, 288), s.edge(0, 288)
    if s.flag(1, 4):
        return ["pos", [x + 0.5, y + 0.25], "{\\pos(%d.5,%d.25)}" % (x, y)]
    return ["pos", [x, y], "{\\pos(%d,%d)}" % (x, y)]


def g_row(s, ssa=True):
    if s.flag(1, 40):
        # not an empty line, so the cue goes on
        return [["t", s.pick([" ", "   ", "\t", " \t "])]]
    toks = s.list(lambda s: g_token(s, ssa), 1, 8, 0.65, 60)
    if s.flag(1, 200):
        # colours inside colours
        n = s.pick([4, 8, 9, 16, 17, 33, 65, 100])
        toks += [g_font(s) for _ in range(n)] + [["t", "in"]] + [["unfont", None, "</font>"]] * s.int(1, n + 1) + [["t", "out"], ["unfont", None, "</font>"], ["t", "further"]]
    out = []
    for t in toks:
        # two texts in a row could join up to a tag; so could text around a dropped U+202B
        if t[0] in ("t", "rle") and out and out[-1][0] in ("t", "rle") and any(x[0] == "t" and OPENERS.search(x[1]) for x in out[-2:]):
            continue
        out.append(t)
    return out


def g_cue(s, ssa=True):
    a, b = span(s)
    return {"from": a, "to": b, "counter": s.pick(["1", "2", "17", "999", "x", " ", "0", "-->", "#", "1 "]),
            "pad": s.n(3), "arrow": s.pick([" --> ", "  -->  ", " -> ", " -->   "]), "tail": s.pick(["", " ", "   "]),
            "coords": s.flag(1, 6), "rows": s.list(lambda s: g_row(s, ssa), 0 if s.flag(1, 12) else 1, 5, 0.5, 40), "gap": s.int(1, 3) if s.flag(1, 4) else 1}


def g_doc(s, ssa=True, lo=0, hi=6):
    return {"bom": s.flag(1, 6), "lead": s.n(3) if s.flag(1, 5) else 0, "cues": s.list(lambda s: g_cue(s, ssa), lo, hi, 0.6, big=8 * hi),
            "end": s.n(3)}


def r_time(t, pad):
    if pad == 2:
        return "%d:%d:%d,%03d" % tuple(t)
    if pad == 1:
        return "%03d:%02d:%02d,%03d" % tuple(t)
    return "%02d:%02d:%02d,%03d" % tuple(t)


def r_row(row):
    return "".join(t[1] if t[0] == "t" else t[2] for t in row)


def r_cue_lines(c):
    lines = [c["counter"], r_time(c["from"], c["pad"]) + c["arrow"] + r_time(c["to"], c["pad"])
             + (" X1:100 X2:200 Y1:010 Y2:020" if c["coords"] else "") + c["tail"]]
    return lines + [r_row(r) for r in c["rows"]]


def render(doc, nl="\n"):
    lines = [""] * doc["lead"]
    for n, c in enumerate(doc["cues"]):
        lines += r_cue_lines(c)
        lines += [""] * (c["gap"] if n < len(doc["cues"]) - 1 else doc["end"])
    t = nl.join(lines)
    if doc["cues"] and doc["end"]:
        t += nl
    return ("\ufeff" if doc["bom"] else "") + t


def cue_runs(c):
    out = []
    st = {"b": False, "i": False, "u": False, "col": WHITE, "fs": (None, None), "hp": (0.0, HCENTRE)}
    vprop, vref, line = None, TOP_OF_SUB, 0
    stack = []
    text = [""]

    def flush():
        if text[0]:
            out.append(run(text[0], c["from"], c["to"], vp=(vprop, line, None, vref), **st))
            text[0] = ""

    for row in c["rows"]:
        for t in row:
            k = t[0]
            if k == "t":
                text[0] += t[1]
                continue
            if k == "rle":
                continue
            flush()
            if k == "sep":
                line += 1
            elif k in "biu":
                st[k] = bool(t[1])
            elif k == "font":
                st["col"] = tuple(x / 255 for x in t[1])
                stack.append(st["col"])
            elif k == "unfont":
                if stack:
                    stack.pop()
                st["col"] = stack[-1] if stack else WHITE
            elif k == "c":
                st["col"] = tuple(x / 255 for x in t[1])
            elif k == "an":
                n = t[1]
                st["hp"] = (0.0, [LEFT, HCENTRE, RIGHT][(n - 1) % 3])
                vref = [BOTTOM, VCENTRE, TOP][(n - 1) // 3]
            elif k == "fs":
                st["fs"] = (t[1] / 288, None)
            elif k == "pos":
                st["hp"] = (t[1][0] / 288, LEFT)
                vprop, vref = t[1][1] / 288, TOP
        flush()
        line += 1
    return out


def expected(doc):
    out = []
    for c in doc["cues"]:
        out += cue_runs(c)
    return out
