"""SSA/ASS scripts: an abstract syntax, its rendering and its meaning."""
from pbt.core import Src, f32
from pbt.model import *

TEXTS = ["a,b", "x: y", "10:30", "[Events]", "}", ", ", "a; b", "Dialogue: 0,0:00", "* x", "-", "&H00FF&", "(1,2)", "i1", "N", "/N", "\u2028", "<i>", "Format: Text", "#"]
UNSUPPORTED = ["\\fscx110", "\\fscy90", "\\fsp2", "\\fsp-1", "\\bord2", "\\shad1.5", "\\clip(10,20,300,400)", "\\iclip(0,0,1,1)", "\\clip(m 0 0 l 10 0 10 10)", "\\fad(200,300)", "\\k20", "\\kf35", "\\K40",
               "\\move(10,20,30,40)", "\\blur0.5", "\\be1", "\\fnArial", "\\fn Times New Roman", "\\1c&H0000FF&", "\\2c&H00FF00&", "\\3c&H112233&", "\\4c&H000000&", "\\alpha&H80&", "\\1a&HFF&",
               "\\r", "\\rAlt", "\\q2", "\\frz30", "\\frx10.5", "\\fr-10", "\\s1", "\\fe128", "\\t(\\fscx120)", "\\t(0,500,\\fs40)", "\\t(\\c&H0000FF&)", "\\t(0,100,1,\\i1\\b1)", "\\t(\\u1)",
               "\\org(100,200)", "\\p0", "\\pbo3", "\\fade(255,0,255,0,100,200,300)", "\\xbord1", "\\fax0.5", "\\ishad2", "\\be0", "\\pose1"]
UNSUPPORTED.remove("\\pose1")
NAMES = ["Default", "Alt", "Main Title", "s1", "default", "Alt 2", "D\u00e9faut", "-x", "Al"]
FONTS = ["Arial", "Helvetica Neue", "Times", "@MS Gothic", "\u30e1\u30a4\u30ea\u30aa", "x-y_z"]
STYLE_FIELDS = ["Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold", "Italic", "Underline", "StrikeOut", "ScaleX", "ScaleY", "Spacing", "Angle",
                "BorderStyle", "Outline", "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "AlphaLevel", "Encoding"]
EVENT_FIELDS = ["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect"]


def comps(s):
    return [s.edge(0, 255, 127, 128, 16, 15, 1) for _ in range(3)]


def g_colour(s):
    c = comps(s)
    v = c[2] << 16 | c[1] << 8 | c[0]
    k = s.n(5)
    if k == 0:
        return [c, "&H%08X" % v]
    if k == 1:
        return [c, "&H%06X" % v]
    if k == 2:
        return [c, "&H%08x" % (v | s.n(256) << 24)]
    if k == 3:
        return [c, str(v)]
    return [c, "&H%X" % v]


def g_style(s, name):
    f = {"Name": name, "Fontname": s.pick(FONTS), "PrimaryColour": g_colour(s), "SecondaryColour": g_colour(s), "OutlineColour": g_colour(s), "BackColour": g_colour(s),
         "Fontsize": str(s.edge(1, 200, 20, 72)) + (s.pick(["", ".5", ".25"]) if s.flag(1, 6) else "")}
    for k in ("Bold", "Italic", "Underline", "StrikeOut"):
        f[k] = s.pick(["0", "-1"])
    f["BorderStyle"] = s.pick(["1", "3"])
    f["Alignment"] = str(s.pick([2, 1, 3, 4, 5, 6, 7, 8, 9]))
    for k in ("MarginL", "MarginR", "MarginV"):
        f[k] = margin(s, s.edge(0, 400, 10, 100))
    f.update({"ScaleX": "100", "ScaleY": "100.5", "Spacing": "0", "Angle": "0", "Outline": s.pick(["2", "1.5"]), "Shadow": s.pick(["2", "0"]), "AlphaLevel": "0", "Encoding": "1"})
    return f


def margin(s, v):
    return s.pick(["%d", "%d", "%04d"]) % v


def g_text(s):
    return words(s, TEXTS, 1, 3)


WS = [w for w in WORDS if "\t" not in w]


def g_chunks(s, tags, an=False, pos=0):
    """text as a list of ["t", text] / ["n", "\\N"] / ["tags", [[kind, value, rendering]...]]; never begins or ends with white space"""
    out = []
    if an:
        n = s.int(1, 9)
        blk = [["an", n, "\\an%d" % n]]
        if s.flag(1, 4):
            blk.append(["un", None, s.pick(UNSUPPORTED)])
        if s.flag(1, 4):
            v = s.n(2)
            blk.insert(0, ["i", v, "\\i%d" % v])
        out.append(["tags", blk])
    for _ in range(s.size(0, 8, 80, 16) if s.flag(1, 6) else s.int(1, 5)):
        k = s.n(8)
        if k < 4:
            t = s.pick(["", "", " "]) + words(s, TEXTS, 1, 3, WS).replace("{", "(").replace("\\", "/") + s.pick(["", "", " "])
            out.append(["t", t])
        elif k < 6:
            out.append(["n", s.pick(["\\N", "\\n"])])
        elif tags:
            out.append(["tags", s.list(g_tag, 0 if s.flag(1, 8) else 1, 4, 0.5, 30)])
    if pos:
        x, y = s.edge(0, 2000, 288), s.edge(0, 1200, 288)
        t = s.pick(["\\pos(%d,%d)" % (x, y), "\\pos(%d.5,%d.25)" % (x, y)])
        if ".5" in t:
            x, y = x + 0.5, y + 0.25
        b = ["tags", [["pos", [x, y], t]]]
        out.insert(0 if pos == 1 else s.n(len(out) + 1), b)
    # a comment in braces
    if s.flag(1, 12):
        out.insert(s.n(len(out) + 1), ["tags", [["un", None, s.pick(["note", "a comment, really"])]]])
    joined = []
    for c in out:
        if c[0] == "t":
            if not c[1]:
                continue
            if joined and joined[-1][0] == "t":
                joined[-1][1] += c[1]
                continue
        joined.append(c)
    # no white space at the ends, where the reader trims it
    out = joined
    if out and out[0][0] == "t":
        out[0][1] = out[0][1].lstrip(" ")
    if out and out[-1][0] == "t":
        out[-1][1] = out[-1][1].rstrip(" ")
    return out


def g_tag(s):
    k = s.n(10)
    if k < 3:
        w, v = s.pick("ibu"), s.n(2)
        return [w, v, "\\%s%d" % (w, v)]
    if k == 3:
        if s.flag(1, 3):
            return ["creset", None, "\\c"]
        c = comps(s)
        v = c[2] << 16 | c[1] << 8 | c[0]
        return ["c", c, s.pick(["\\c&H%06X&", "\\c&H%06x&", "\\c&H%X&"]) % v]
    if k == 4:
        v = s.edge(1, 200)
        if s.flag(1, 4):
            return ["fs", v + 0.5, "\\fs%d.5" % v]
        return ["fs", v, "\\fs%d" % v]
    return ["un", None, s.pick(UNSUPPORTED)]


def r_chunks(ch):
    out = ""
    for c in ch:
        out += c[1] if c[0] in "tn" and c[0] != "tags" else "{" + "".join(t[2] for t in c[1]) + "}"
    return out


def cs(s):
    return [s.edge(0, 30, 9, 10, 99), s.edge(0, 59), s.edge(0, 59), s.edge(0, 99, 1, 10)]


def g_doc(s, geometry=False):
    info = []
    rx = ry = None
    if s.flag(3, 4):
        rx = s.pick([384, 640, 1920, 100, 288, 16])
        info.append("PlayResX: %d" % rx)
    if s.flag(3, 4):
        ry = s.pick([288, 480, 1080, 100, 16])
        info.append("PlayResY: %d" % ry)
    for x in ["Title: libsub, test: 1", "ScriptType: v4.00+", "WrapStyle: 0", "; comment", "; PlayResX: 17", "!: x", "Timer: 100.0000", "PlayDepth: 0", "", "ScaledBorderAndShadow: yes", ";Format: a"]:
        if s.flag(1, 4):
            info.append(x)
    info = s.shuffle(info)
    names = []
    styles = []
    fmt = [f for f in STYLE_FIELDS if f == "Name" or not s.flag(1, 8)]
    if s.flag(1, 2):
        fmt = s.shuffle(fmt)
    for k in range(s.size(0, 4, 40)):
        n = s.pick(NAMES) if k < 4 else "s%d" % k
        styles.append(g_style(s, n))
    ef = [f for f in EVENT_FIELDS if f in ("Start", "End", "Style") or not s.flag(1, 8)]
    if s.flag(1, 2):
        ef = s.shuffle(ef)
    if s.flag(1, 6) and "Layer" in ef:
        ef[ef.index("Layer")] = "Marked"
    ef.append("Text")
    events = []
    pool = [st["Name"] for st in styles] + ["Default", "Unknown"]
    for _ in range(s.size(0, 5, 40)):
        a = cs(s)
        b = cs(s)
        kind = "Comment" if s.flag(1, 8) else s.pick(["Picture", "Sound", "Command"]) if s.flag(1, 20) else "Dialogue"
        nm = s.pick(["", "", "*", "**"]) + s.pick(pool)
        ev = {"kind": kind, "start": a, "end": b, "style": nm, "ml": margin(s, s.pick([0, 0, s.edge(1, 300)])), "mr": margin(s, s.pick([0, 0, s.edge(1, 300)])),
              "mv": margin(s, s.pick([0, 0, s.edge(1, 300)]))}
        an = s.flag(1, 2)
        pos = 0 if an else s.pick([0, 0, 1, 2])
        ev["text"] = g_chunks(s, not geometry or s.flag(1, 2), an, pos)
        if geometry:
            # the size of a row is a property of the event
            for c in ev["text"]:
                if c[0] == "tags":
                    c[1] = [t for t in c[1] if t[0] != "fs"]
        events.append(ev)
    other = []
    for place in range(4):
        if s.flag(1, 5):
            other.append([place, s.pick(["[Fonts]", "[Graphics]", "[Aegisub Project Garbage]", "[Aegisub Extradata]"]),
                          s.list(lambda s: s.pick(["fontname: chaucer_B0.ttf", "M'8R(%_[2)A!!", "begin 644", "Dialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,Not a subtitle", "PlayResX: 7", "PlayResY: 7",
                                                   "Format: Text, Start", "Style: Default,x", "Last Style Storage: Default", "; x", "", "#$%", "Comment: 0"]), 0, 4, 0.6)])
    return {"bom": s.flag(1, 6), "info": info, "rx": rx, "ry": ry, "sect": s.pick(["[V4+ Styles]", "[V4 Styles]"]), "fmt": fmt, "styles": styles, "ef": ef, "events": events, "other": other,
            "sep": s.pick([", ", ",", " , "]), "lead": s.pick(["", "", " ", "\t"]), "gap": s.pick([" ", "", "  "]), "notes": s.flag(1, 4), "end": s.n(3)}


def style_line(doc, st):
    def v(f):
        x = st[f]
        return x[1] if isinstance(x, list) else x
    return ",".join(v(f) for f in doc["fmt"])


def event_line(doc, e):
    v = {"Layer": "0", "Marked": "Marked=0", "Start": e.get("rawstart", "%d:%02d:%02d.%02d" % tuple(e["start"])), "End": e.get("rawend", "%d:%02d:%02d.%02d" % tuple(e["end"])), "Style": e["style"], "Name": "Ann: x",
         "MarginL": e["ml"], "MarginR": e["mr"], "MarginV": e["mv"], "Effect": "", "Text": r_chunks(e["text"])}
    return doc["lead"] + e["kind"] + ":" + doc["gap"] + ",".join(v[f] for f in doc["ef"])


def render(doc, nl="\n"):
    L = []

    def other(place):
        for p, head, lines in doc["other"]:
            if p == place:
                L.append(head)
                L.extend(lines)
                L.append("")
    if any(o[0] == 0 for o in doc["other"]):
        other(0)
    L.append("[Script Info]")
    L.extend(doc["info"])
    L.append("")
    other(1)
    if doc["styles"]:
        L.append(doc["sect"])
        L.append("Format: " + doc["sep"].join(doc["fmt"]))
        for st in doc["styles"]:
            if doc["notes"]:
                L.append("; Style: Default,comment")
            L.append(doc["lead"] + "Style:" + doc["gap"] + style_line(doc, st))
        L.append("")
    other(2)
    L.append("[Events]")
    L.append("Format:" + doc["gap"] + doc["sep"].join(doc["ef"]))
    for e in doc["events"]:
        if doc["notes"]:
            L.append("; Dialogue: 0,0:00:00.00")
        L.append(event_line(doc, e))
    other(3)
    L += [""] * doc["end"]
    return ("\ufeff" if doc["bom"] else "") + nl.join(L)


def colour(c):
    return tuple(x / 255 for x in c)


def event_runs(doc, e):
    """expected runs, with "row" (number of breaks before) and "hp"/"vp" from the placement rules"""
    rx, ry = doc["rx"] or 288, doc["ry"] or 288
    st = None
    table = {x["Name"]: x for x in doc["styles"]}
    name = e["style"].lstrip("*")
    if name in table:
        st = table[name]
    elif "Default" in table:
        st = table["Default"]
    has = lambda f: st is not None and f in doc["fmt"]
    size = float(st["Fontsize"]) if has("Fontsize") else 72.0
    prim = colour(st["PrimaryColour"][0]) if has("PrimaryColour") else WHITE
    cur = {"b": has("Bold") and st["Bold"] == "-1", "i": has("Italic") and st["Italic"] == "-1", "u": has("Underline") and st["Underline"] == "-1", "col": prim,
           "font": st["Fontname"] if has("Fontname") else None, "fs": e.get("size") or (size / ry, None), "effect": SHADOW if has("BorderStyle") and st["BorderStyle"] == "1" else None,
           "ecol": colour(st["BackColour"][0]) if has("BackColour") else None}
    al = int(st["Alignment"]) if has("Alignment") else 2
    m = {}
    for k, f in (("ml", "MarginL"), ("mr", "MarginR"), ("mv", "MarginV")):
        m[k] = int(st[f]) if has(f) else 0
        if f in doc["ef"] and int(e[k]) != 0:
            m[k] = int(e[k])
    ls = 1.2 * size / ry
    for c in e["text"]:
        if c[0] == "tags":
            for t in c[1]:
                if t[0] == "an":
                    al = t[1]
    breaks = sum(1 for c in e["text"] if c[0] == "n")
    href, vref = [LEFT, HCENTRE, RIGHT][(al - 1) % 3], [BOTTOM, VCENTRE, TOP][(al - 1) // 3]
    hp = {LEFT: m["ml"] / rx, HCENTRE: (m["ml"] - m["mr"]) / (2 * rx), RIGHT: m["mr"] / rx}[href]
    row, pos = 0, None
    out, text = [], ""

    def flush():
        nonlocal text
        if text:
            if pos is not None:
                vp, h = (pos[0][1] / ry + m["mv"] / ry + (row - pos[1]) * ls, None, None, TOP), (pos[0][0] / rx, LEFT)
            else:
                v = {TOP: m["mv"] / ry + row * ls, BOTTOM: m["mv"] / ry + (breaks - row) * ls, VCENTRE: row * ls - (breaks + 1) * ls / 2}[vref]
                vp, h = (v, None, None, vref), (hp, href)
            def tm(t):
                return (t[0], t[1], t[2], t[3] * 10)
            out.append(run(text, tm(e["start"]), tm(e["end"]), row=row, mag=m["mv"] / ry + (breaks + 1) * ls, hp=h, vp=vp, **cur))
            text = ""

    for c in e["text"]:
        if c[0] == "t":
            text += c[1]
        elif c[0] == "n":
            flush()
            row += 1
        else:
            flush()
            for t in c[1]:
                if t[0] in "ibu":
                    cur[t[0]] = bool(t[1])
                elif t[0] == "c":
                    cur["col"] = colour(t[1])
                elif t[0] == "creset":
                    cur["col"] = prim
                elif t[0] == "fs":
                    cur["fs"] = (t[1] / ry, None)
                elif t[0] == "pos":
                    pos = (t[1], row)
    flush()
    return out


def expected(doc):
    out = []
    for e in doc["events"]:
        if e["kind"] == "Dialogue":
            out.append(event_runs(doc, e))
    return out
