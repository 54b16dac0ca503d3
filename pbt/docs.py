"""All five formats behind one interface: a document is {"fmt", "doc"}."""
from pbt import srt, ssa, vtt, stlt, stlbin
from pbt.core import txt

TEXT = ["srt", "ssa", "vtt", "stltext"]
FORMATS = TEXT + ["stlbin"]
SOURCES = {"srt": ["string", "file"], "ssa": ["string", "file"], "vtt": ["string", "file"], "stltext": ["stream", "fstream"], "stlbin": ["stream", "file", "fstream"]}
BOM_OK = ["srt", "ssa", "vtt"]
MOD = {"srt": srt, "ssa": ssa, "vtt": vtt, "stltext": stlt, "stlbin": stlbin}


def gen(s, fmt=None):
    fmt = fmt or s.pick(FORMATS)
    if fmt == "ssa":
        return {"fmt": fmt, "doc": ssa.g_doc(s, s.flag())}
    return {"fmt": fmt, "doc": MOD[fmt].g_doc(s)}


def render(d, nl="\n"):
    if d["fmt"] == "stlbin":
        return stlbin.render(d["doc"])
    return MOD[d["fmt"]].render(d["doc"], nl).encode("utf8")


def expected(d):
    e = MOD[d["fmt"]].expected(d["doc"])
    if d["fmt"] in ("ssa", "stlbin"):
        e = [r for x in e for r in x]
    return e


SPLICES = [b"", b"\n", b"\r\n", b"\0", b"\xff", b"\xe2\x80\xa8", b"\xef\xbb\xbf", b"<", b">", b"{", b"}", b"{\\", b"<font", b"</font>", b"<font color=\"#12", b":", b",", b".", b"-->", b" ", b"0", b"9999999999",
           b"-1", b"[Events]\n", b"Format: ", b"Dialogue: ", b"Style: ", b"NOTE", b"WEBVTT", b"|", b"^", b"^B", b"$", b"=", b"//", b"\x8a", b"\x8f", b"\x80", b"\xc1", b"\xc8e", b"STL", b"\\pos(1", b"\\c", b"\\fs", b"&H", b"%1", b"%",
           b"1e40", b"nan", b"\\N", b"\\", b"PlayResX: 0\n", b"PlayResY: 0\n", b"PlayResX: -5\n", b"PlayResY:\n"]


def g_edits(s, hi=3):
    """byte-level edits, as [kind, a, b, splice] with positions in thousandths"""
    return [[s.n(8), s.n(1001), s.n(1001), s.n(len(SPLICES)), s.n(256)] for _ in range(s.int(1, hi))]


def edit(data, edits):
    for k, a, b, w, v in edits:
        n = len(data)
        i = a * n // 1000
        j = min(n, i + (b * b // 1000 * min(n, 200)) // 1000)
        if k == 0:
            data = data[:i] + SPLICES[w] + data[i:]
        elif k == 1:
            data = data[:i] + SPLICES[w] + data[j:]
        elif k == 2:
            data = data[:i] + data[j:]
        elif k == 3:
            data = data[:i]
        elif k == 4:
            data = data[:i] + bytes([v]) + data[i + 1:]
        elif k == 5:
            data = data[:j] + data[i:j] + data[j:]
        else:
            L = data.split(b"\n")
            x = a * len(L) // 1001
            if k == 6:
                del L[x]
            else:
                L.insert(x, L[b * len(L) // 1001])
            data = b"\n".join(L)
    return data


def outcome(r):
    """what a read says, without the noise of where a context line was cut"""
    if "ok" in r:
        return ["ok", r["ok"]["subs"], r["ok"]["meta"], r["ok"].get("gsi")]
    return ["err", r["err"], r.get("what"), r.get("line"), [x.rstrip("\r\n") for x in r.get("context", [])]]


def say(o):
    if o[0] == "ok":
        return "%d runs %r" % (len(o[1]), [txt(x["text"])[:40] for x in o[1]][:12])
    return "%s (%s) line %s" % (o[1], txt(o[2] or ""), o[3])


def differ(a, b):
    """None, or how two outcomes differ"""
    if a == b:
        return None
    if a[0] == b[0] == "ok" and len(a[1]) == len(b[1]):
        for n, (x, y) in enumerate(zip(a[1], b[1])):
            if x != y:
                return "run %d: %s" % (n, ", ".join("%s %r or %r" % (k, x[k], y[k]) for k in x if x[k] != y[k]))
        for k in a[2]:
            if a[2][k] != b[2].get(k):
                return "metadata %s: %r or %r" % (k, a[2][k], b[2].get(k))
        return "header members: %r or %r" % (a[3], b[3])
    return "%s, or %s" % (say(a), say(b))
