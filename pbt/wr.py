"""Lists of subtitles for the binary STL writer: generators, request tokens and the model of what the file must say."""
import itertools, math, re
from fractions import Fraction as F
from pbt import iso, stltables as T
from pbt.core import fbits, f32
from pbt.c10 import block_tokens, vp_fields, hp_fields
from pbt.c11 import spec, instant
from pbt.stlbin import RATE

ROWS = 23
FPS = [25.0, 24.0, f32(23.976), 30.0]
DFC_OF = {25.0: "STL25.01", 24.0: "STL24.01", f32(23.976): "STL23.01", 30.0: "STL30.01"}
DEFAULT_HEAD = {"fps": 25.0, "lang": 9, "opt": "", "oet": "", "tpt": "", "tet": "", "tn": "", "tc": "", "cd": "200101", "rd": "200102", "rev": 0,
                "co": "GBR", "pub": "", "en": "", "ec": ""}
FIELDS32 = ["opt", "oet", "tpt", "tet", "tn", "tc", "pub", "en", "ec"]


def rate_of(fps):
    return F(*RATE[DFC_OF.get(fps, "STL25.01")])


def head_tokens(path, h):
    b = lambda x: x.encode("utf8", "surrogateescape")
    return [path, fbits(h["fps"]), h["lang"]] + [b(h[k]) for k in ("opt", "oet", "tpt", "tet", "tn", "tc")] + [b(h["cd"]), b(h["rd"]), h["rev"]] + \
        [b(h[k]) for k in ("co", "pub", "en", "ec")]


def sub_tokens(subs):
    out = [str(len(subs))]
    for x in subs:
        out.append(" ".join([spec(x["from"]), spec(x["to"]), "-", "-", str(len(x["lines"]))]))
        for l in x["lines"]:
            out.append(" ".join(hp_fields(l["hp"]) + vp_fields(l["vp"]) + [str(len(l["blocks"]))]))
            for b in l["blocks"]:
                out += block_tokens(b["text"], style(b))
    return out


def style(b):
    return {"font": b.get("font"), "b": b.get("b", 0), "i": b["i"], "u": b["u"], "col": b.get("col", [1.0, 1.0, 1.0]), "fsp": b.get("fsp"),
            "fsq": b.get("fsq"), "effect": b.get("effect"), "ecol": b.get("ecol")}


# ---------------------------------------------------------------- generators

def g_text(s, pool=None):
    k = s.n(6)
    if k < 3:
        return s.pick(["Hello", "a", "the end.", " ", "x y", "No!", "-", "42"])
    if k < 5:
        return "".join(s.pick(iso.PRINTABLE) for _ in range(s.int(1, 6)))
    return s.pick(["caf\u00e9", "\u00c5ngstr\u00f6m", "\u0159e\u010d", "na\u00efve", "\u00bfqu\u00e9?"])


def g_block(s):
    t = g_text(s)
    if s.flag(1, 5):
        t += s.pick([" ", "", "-"]) + g_text(s)
    if s.flag(1, 12):
        t = (t + g_text(s)) * s.int(2, 40)
    b = {"text": t if s.flag(19, 20) or True else "", "i": s.n(2), "u": s.n(2)}
    if s.flag(1, 6):
        b.update({"font": "Arial", "fsq": 42, "b": 1, "effect": 1, "ecol": [0.0, 0.5, 1.0], "col": [1.0, 0.0, 0.0]})
    return b


def g_known_vp(s):
    ref = s.pick([0, 2, 1, None])
    if s.flag():
        lines = s.pick([23, 32, 11, 12, 24, 100, 7, 1, s.int(1, 99)])
        lo, hi = {1: (-(lines // 2), lines // 2)}.get(ref, (0, lines))
        return [None, s.edge(lo, hi), lines, ref]
    if ref == 1:
        return [f32(s.edge(-500, 500, 0) / 1000.0), None, None, ref]
    return [f32(s.edge(0, 1000, 100, 500, 900) / 1000.0), None, None, ref]


def g_unknown_vp(s):
    return s.pick([[None, None, None, None], [None, s.n(5), None, 3], [None, s.n(5), None, 0], [f32(s.n(10) / 10), None, None, 3],
                   [None, s.n(5), s.pick([5, 23]), 3], [None, None, 23, 0], [None, s.n(5), None, None], [None, s.n(3), None, 2]])


def g_lines(s, block, maxlines=5):
    n = s.size(1, maxlines, 40)
    kind = s.n(4)
    if kind == 0:
        vps = [g_unknown_vp(s) for _ in range(n)]
        if s.flag():
            vps = [[vps[0][0], None if vps[0][1] is None else i, vps[0][2], vps[0][3]] for i in range(n)]
    elif kind < 3:
        # one reference and kind, going down
        a = g_known_vp(s)
        vps = []
        for i in range(n):
            v = list(a)
            if i:
                v = list(vps[-1])
                down = -1 if v[3] == 2 else 1
                if v[0] is not None:
                    v[0] = f32(v[0] + down * s.pick([1 / 23.0, 0.05, 0.02, 0.1, 0.0, 0.2]))
                else:
                    v[1] += down * s.pick([1, 1, 2, 0, 5])
            vps.append(v)
    else:
        vps = [g_known_vp(s) for _ in range(n)]
        if s.flag(2, 3):
            vps.sort(key=lambda v: exact_row(v))
    hp = [s.pick([0.0, 0.25]), s.pick([1, 0, 2])]
    out = []
    for v in vps:
        h = hp if s.flag(4, 5) else [0.0, s.n(3)]
        nb = s.pick([1, 1, 1, 2, 3, 0]) if not s.flag(1, 100) else s.int(0, 40)
        out.append({"hp": h, "vp": v, "blocks": [block(s) for _ in range(nb)]})
    return out


def g_time(s):
    """below 24 h even when rounded up to a frame"""
    if s.flag():
        t = ["m", s.edge(0, 23), s.edge(0, 59), s.edge(0, 59), s.edge(0, 999, 500, 980, 985, 979, 20, 40, 41, 42), 1000, 1]
    else:
        q = s.pick([(25, 1), (24, 1), (24000, 1001), (30, 1), (50, 1), (60, 1), (1000, 1), (24, 1), (30000, 1001)])
        t = ["r", s.edge(0, 23), s.edge(0, 59), s.edge(0, 59), s.edge(0, math.ceil(F(*q)) - 1), q[0], q[1]]
    if t[1] == 23 and t[2] == 59 and t[3] == 59:
        t[4] = 0
    return t


def g_subs(s, lo=0, hi=6, block=g_block, maxlines=5):
    out = []
    for _ in range(s.size(lo, hi, 8 * hi)):
        a = g_time(s)
        if out and s.flag(1, 6):
            a = list(out[-1]["from"])
        out.append({"from": a, "to": g_time(s), "lines": g_lines(s, block, maxlines)})
    return out


def g_str(s, n):
    k = s.n(5)
    if k == 0:
        return ""
    if k < 3:
        return s.pick(["Title", "A (b), c", "x" * n, "y" * (n - 1), " lead", "12345"])[:n]
    if k == 3:
        return "".join(chr(s.int(32, 126)) for _ in range(s.int(0, n)))
    t = ""
    while True:
        c = s.pick("\u00e9a\u4f60 ")
        if len((t + c).encode()) > n or s.flag(1, 12):
            return t
        t += c


def g_head(s, fps=None):
    h = dict(DEFAULT_HEAD)
    h["fps"] = s.pick(fps or FPS)
    h["lang"] = s.n(len(T.LANGUAGES))
    for k in FIELDS32:
        h[k] = g_str(s, 32)
    for k in ("cd", "rd"):
        h[k] = "".join(str(s.n(10)) for _ in range(6))
    h["co"] = s.pick(["GBR", "DEU", "fra", "   ", "X1-"])
    h["rev"] = s.edge(0, 99, 9, 10)
    return h


# ---------------------------------------------------------------- model

def known(v):
    return v[3] != 3 and (v[0] is not None or (v[1] is not None and v[2] not in (None, 0)))


def exact_row(v):
    """where a known position is, in rows of the file, unrounded"""
    p = F(v[0]) if v[0] is not None else F(v[1], v[2])
    ref = v[3] or 0
    return {0: p * ROWS, 1: p * ROWS + F(ROWS, 2), 2: ROWS - p * ROWS}[ref]


def candidates(v):
    """the rows that a position can be rounded to (two at a half), kept on the screen"""
    x = exact_row(v)
    lo, hi = math.floor(x + F(1, 2) - F(1, 10000)), math.floor(x + F(1, 2) + F(1, 10000))
    return sorted({min(max(r, 0), ROWS) for r in (lo, hi)})


def chain(rows):
    """each row where it wants to be, but below the one before and leaving space for those after it"""
    out = []
    for k, r in enumerate(rows):
        out.append(max(min(r, ROWS - (len(rows) - 1 - k)), out[-1] + 1 if out else 0))
    return out


def row_choices(lines):
    """every right assignment of rows, or None when the positions do not say (unknown)"""
    if not all(known(l["vp"]) for l in lines) or len(lines) > ROWS + 1:
        return None
    cs = [candidates(l["vp"]) for l in lines]
    if sum(len(c) > 1 for c in cs) > 6:
        return None
    return [chain(x) for x in itertools.product(*cs)]


def pieces(sub):
    """the subtitle's text as [line number, text, italic, underline], neighbours of one style joined"""
    out = []
    for n, l in enumerate(sub["lines"]):
        for b in l["blocks"]:
            if b["text"] == "":
                continue
            k = [n, b["text"], bool(b["i"]), bool(b["u"])]
            if out and out[-1][0] == n and out[-1][2:] == k[2:]:
                out[-1] = [n, out[-1][1] + b["text"]] + k[2:]
            else:
                out.append(k)
    return out


TIME_RE = re.compile(r"^(\d+):(\d+):(\d+):(\d+) @ (\d+)/(\d+)$")


def read_instant(js):
    m = TIME_RE.match(js[4])
    h, mi, s, f, n, d = map(int, m.groups())
    return (h * 60 + mi) * 60 + s + F(f) * d / n


HALF = F(3, 10000)


def time_close(given, js, rate):
    return abs(instant(given) - read_instant(js)) <= F(1, 2) / rate + HALF


def read_pieces(raws):
    """raw runs from the reader -> [from, to, row, text, i, u, hp, run], neighbours joined"""
    out = []
    for r in raws:
        if r["text"] == "":
            continue
        t = r["text"].encode("latin1").decode("utf8", "backslashreplace")
        k = [r["from"][4], r["to"][4], r["vp"][1], r["biu"][1] == "I", r["biu"][2] == "U", tuple(r["hp"])]
        if out and out[-1][0] == k:
            out[-1][1] += t
        else:
            out.append([k, t, r])
    return out


def compare(subs, raws, rate):
    """None, or how the runs read back differ from the subtitles written"""
    got = read_pieces(raws)
    n = 0
    # a subtitle of more rows than the screen has moves every other one
    fits = all(len(x["lines"]) <= ROWS + 1 for x in subs)
    for k, sub in enumerate(subs):
        want = pieces(sub)
        mine = []
        for p in want:
            # pieces with the same style on the same row may come joined with those of a neighbour subtitle only if all their data agree
            if n >= len(got):
                return "subtitle %d: %r is missing from the file read back" % (k, p[1])
            g = got[n]
            if g[1] != p[1]:
                if g[1].startswith(p[1]):
                    # a longer run: the rest must belong to what follows with identical data
                    got[n] = [g[0], g[1][len(p[1]):], g[2]]
                    mine.append(g)
                else:
                    return "subtitle %d: text %r read back as %r" % (k, p[1], g[1])
            else:
                mine.append(g)
                n += 1
        if not want:
            continue
        for p, (key, _, r) in zip(want, mine):
            if (key[3], key[4]) != (p[2], p[3]):
                return "subtitle %d: %r read back with italic %r and underline %r" % (k, p[1], key[3], key[4])
            if not time_close(sub["from"], r["from"], rate) or not time_close(sub["to"], r["to"], rate):
                return "subtitle %d: times %r to %r read back as %s to %s" % (k, sub["from"], sub["to"], r["from"][4], r["to"][4])
            if r["hp"] != [0.0, sub["lines"][0]["hp"][1]]:
                return "subtitle %d: justification %r read back as %r" % (k, sub["lines"][0]["hp"][1], r["hp"])
            if r["vp"][0] is not None or r["vp"][2] != ROWS or r["vp"][3] != 0:
                return "subtitle %d: vertical position read back as %r" % (k, r["vp"])
        rows = [x[0][2] for x in mine]
        ch = row_choices(sub["lines"]) if fits else None
        if ch is not None:
            if not any([c[p[0]] for p in want] == rows for c in ch):
                return "subtitle %d: rows %r, expected %r" % (k, rows, [[c[p[0]] for p in want] for c in ch])
        else:
            for (a, ra), (b, rb) in zip(zip(want, rows), zip(want[1:], rows[1:])):
                if (a[0] == b[0]) != (ra == rb) or rb < ra:
                    return "subtitle %d: %r and %r, of rows %d and %d, read back on rows %d and %d" % (k, a[1], b[1], a[0], b[0], ra, rb)
            if fits and not all(0 <= r <= ROWS for r in rows):
                return "subtitle %d: rows %r are off the screen" % (k, rows)
    if n < len(got):
        return "extra run %r read back" % got[n][1]
    return None
