"""Textual STL files: an abstract syntax, its rendering and its meaning."""
from pbt.core import Src
from pbt.model import *

TEXTS = ["a,b", ", ", "x: y", "00:00:01:00", "$Bold = True", "//", "// no", "{b}", "<i>", ",", "=", "/", "B", "\\N"]
JUNK = ["junk", "00:00:01:00", "00:00:01:00,", "00:00:01:00, 00:00:02:00", "00:00:01:00 , 00:00:02:00 ,", "x,y,z", "1:2:3,4:5:6,text", "aa:bb:cc:dd , 00:00:01:00 , no", "00:00:01:00,0:0:x:0,no", ",,", ", ,text",
        ",00:00:01:00,text", "::: , 00:00:02:00 , no", "00:00:01:00 , ::: , no", "0:0:0:0:0,0:0:0:1,no", "99999999999:0:0:0,0:0:0:1,no", "00:00:01.5,00:00:02.5,no", "$", "$=", "$X", "$Bold", "$FontName = a = b",
        "$Unknown = 4", "$VertAlign = Bottom", "$FontSize = big", "$FontSize =", "$ForceDisplay = FALSE", "=", "/", "/ x", "; x", "1:2 :3:4,1:2:3:5,no", "1e1:0:0:0,0:0:0:1,no", "0x1:0:0:0,0:0:0:1,no"]


def g_stime(s):
    return [s.edge(0, 99, 9, 10, 23), s.edge(0, 59), s.edge(0, 59), s.edge(0, 29, 9, 10)]


def g_setting(s):
    k = s.n(5)
    if k == 0:
        v = s.pick(["Arial", "Helvetica Neue", "X", "\u30e1", "a,b"])
        f, t = "font", v
        n = "$FontName"
    elif k == 1:
        v = s.edge(1, 200, 42)
        f, t, n = "fs", str(v), "$FontSize"
    else:
        v = s.n(2)
        f, n = [("b", "$Bold"), ("i", "$Italic"), ("u", "$Underlined")][k - 2]
        t = "True" if v else "False"
    e = s.pick([" = ", "=", "  =  ", " =", "= ", "\t=\t"])
    return {"k": "set", "f": f, "v": v, "line": s.pick(["", "", " "]) + n + e + t + s.pick(["", "", " "])}


def g_sub(s, balanced=False):
    toks = []
    for _ in range(s.size(1, 7, 80)):
        k = s.n(7)
        if k < 4:
            t = words(s, TEXTS, 1, 3)
            if t.startswith("\t"):
                t = "x" + t
            toks.append(["t", s.pick(["", "", " "]) + t.replace("|", "/").replace("^", "~") + s.pick(["", "", " "])])
        elif k == 4:
            toks.append(["row", "|"])
        elif k == 5 and s.flag(1, 4):
            # a caret takes the character after it with it, whatever that is
            toks.append(["esc", "^" + s.pick("biuX^|1 ,:/$A~")])
        else:
            w = s.pick("BIU")
            toks.append([w, "^" + w])
    toks.append(["t", s.pick(["x", ".", "end", "\u00e9"])])
    return {"k": "sub", "from": g_stime(s), "to": g_stime(s), "toks": toks, "sp": [s.pick(["", " ", "  ", "\t"]) for _ in range(3)], "lead": s.pick(["", "", " "]), "pad": s.flag(1, 6),
            "tail": s.pick(["", "", " "])}


def g_entry(s):
    k = s.n(10)
    if k < 6:
        return g_sub(s)
    if k < 8:
        return g_setting(s)
    if k == 8:
        return {"k": "junk", "line": s.pick(["//", "// x", "//00:00:01:00,00:00:02:00,no", " // $Bold = True", "", " ", "//$Bold=True"])}
    return {"k": "junk", "line": s.pick(JUNK)}


def g_doc(s):
    return {"e": s.list(g_entry, 0, 10, 0.8, 80), "nl": s.n(2)}


def line(e):
    if e["k"] != "sub":
        return e["line"]
    f = "%d:%d:%d:%d" if e["pad"] else "%02d:%02d:%02d:%02d"
    return e["lead"] + f % tuple(e["from"]) + e["sp"][0] + "," + e["sp"][1] + f % tuple(e["to"]) + e["sp"][2] + "," + "".join(t[1] for t in e["toks"]) + e["tail"]


def render(doc, nl="\n"):
    L = [line(e) for e in doc["e"]]
    return nl.join(L) + (nl if doc["nl"] and L else "")


def expected(doc):
    st = {"font": None, "fs": None, "b": False, "i": False, "u": False}
    out = []
    for e in doc["e"]:
        if e["k"] == "set":
            st[e["f"]] = bool(e["v"]) if e["f"] in "biu" else e["v"]
        elif e["k"] == "sub":
            out += sub_runs(e, st)
    return out


def sub_runs(e, st):
    out, row, text = [], 0, ""
    cur = {k: st[k] for k in "biu"}

    def flush():
        nonlocal text
        if text:
            out.append(run(text, ("frames",) + tuple(e["from"]), ("frames",) + tuple(e["to"]), font=st["font"], fs=(None, st["fs"]), vp=(None, row, None, TOP_OF_SUB), **cur))
            text = ""
    for k, t in e["toks"]:
        if k == "t":
            text += t
            continue
        flush()
        if k == "esc":
            continue
        if k == "row":
            row += 1
        else:
            cur[k.lower()] = not cur[k.lower()]
    flush()
    return out
