import os
from fractions import Fraction as F
from pbt.core import Check, f32, txt
from pbt import wr, iso, stltables as T
from pbt.c09 import FOREIGN
from pbt.stlbin import RATE

ODD_FPS = [29.97, 23.98, 50.0, 60.0, 48.0, 59.94, 12.0, 15.0, 100.0]


def g_block(s):
    k = s.n(8)
    if k < 4:
        return wr.g_block(s)
    t = ""
    for _ in range(s.int(0, 8)):
        t += s.pick([s.pick(FOREIGN), s.pick(sorted(iso.LOOKALIKE)), chr(s.int(1, 31)), chr(s.int(0x7f, 0xa0)), s.pick(iso.PRINTABLE), "ab",
                     s.pick(sorted(iso.COMBINING)), chr(s.int(0x100, 0x2fff))])
    if s.flag(1, 10):
        t = (t + "x") * s.int(2, 60)
    return {"text": t, "i": s.n(2), "u": s.n(2)}


HOSTILE = [3.4e38, -3.4e38, 1e9, -1e9, 1.5, -0.25, 50.0]


def g_hostile_vp(s):
    return s.pick([[f32(s.pick(HOSTILE)), None, None, s.n(4)], [None, s.pick([-1, 99, 2 ** 31 - 1, -2 ** 31, 0]), s.pick([0, 1, -5, None, 23]), s.n(4)],
                   ["nan", None, None, s.n(3)], ["inf", None, None, s.n(3)]])


def tidy(v):
    return [{"nan": float("nan"), "inf": float("inf")}.get(v[0], v[0])] + v[1:]


class CHECK(Check):
    id = "C08"
    rule = ("lists of up to 6 subtitles with any text (representable, foreign, control characters, long), any style, positions including hostile ones, times "
            "that round to the next second, minute or hour, supported and unsupported file rates, full-length header fields, and a few lists of thousands; the "
            "bytes are parsed by an independent parser; non-trivial: an extension block, a style or an unrepresentable character, and at least two rows")
    quick = 70000
    thorough = 2200000
    assumptions = ["times below 24 h after rounding", "a line break in the text is the ISO 6937 character 0A", "revision numbers 0 to 99",
                   "texts of at most 241 blocks and at most 99999 blocks in a file"]

    def fixed(self, tier):
        out = []
        for n in (1000, 12345) + ((99999,) if tier == "thorough" else ()):
            out.append({"head": dict(wr.DEFAULT_HEAD), "many": n, "subs": []})
        for n in range(90, 120):
            out.append({"head": dict(wr.DEFAULT_HEAD), "subs": [{"from": ["m", 0, 0, 1, 0, 1000, 1], "to": ["m", 0, 0, 2, 0, 1000, 1],
                        "lines": [{"hp": [0.0, 1], "vp": [0.5, None, None, 0], "blocks": [{"text": "x" * n, "i": 0, "u": 0}]}]}]})
        for n in list(range(220, 230)) + [240 * 112, 241 * 112 - 1]:
            out.append({"head": dict(wr.DEFAULT_HEAD), "subs": [{"from": ["m", 0, 0, 1, 0, 1000, 1], "to": ["m", 0, 0, 2, 0, 1000, 1],
                        "lines": [{"hp": [0.0, 1], "vp": [0.5, None, None, 0], "blocks": [{"text": "x" * n, "i": 0, "u": 0}]}]}]})
        return out

    def gen(self, s):
        h = wr.g_head(s, wr.FPS + wr.FPS + [f32(x) for x in ODD_FPS])
        subs = wr.g_subs(s, 0, 6, g_block)
        if s.flag(1, 4):
            for x in subs:
                for l in x["lines"]:
                    if s.flag(1, 2):
                        l["vp"] = g_hostile_vp(s)
        if s.flag(1, 20) and subs:
            subs[0]["lines"] = [{"hp": [0.0, 1], "vp": wr.g_known_vp(s), "blocks": [{"text": "r", "i": 0, "u": 0}]} for _ in range(s.int(20, 40))]
        return {"head": h, "subs": subs}

    def run(self, c, env):
        h = c["head"]
        subs = c["subs"]
        if "many" in c:
            subs = [{"from": ["m", 0, 0, 1, 0, 1000, 1], "to": ["m", 0, 0, 2, 0, 1000, 1],
                     "lines": [{"hp": [0.0, 1], "vp": [0.5, None, None, 0], "blocks": [{"text": "x", "i": 0, "u": 0}]}]}] * c["many"]
        subs = [dict(x, lines=[dict(l, vp=tidy(l["vp"])) for l in x["lines"]]) for x in subs]
        texts = ["".join(b["text"] for l in x["lines"] for b in l["blocks"]) for x in subs]
        foreign = any(iso.representable(t) != t for t in texts)
        self.nontrivial((any(len(t) > 111 for t in texts) or foreign or any(b["i"] or b["u"] for x in subs for l in x["lines"] for b in l["blocks"]))
                        and any(len(x["lines"]) > 1 for x in subs))
        self.label("unrepresentable text", foreign)
        self.label("unsupported rate", h["fps"] not in wr.FPS)
        self.label("several blocks", any(len(t) > 111 for t in texts))
        r = env.drv.call("write", *(wr.head_tokens(os.path.join(env.scratch, "o.stl"), h) + wr.sub_tokens(subs)))
        if "err" in r:
            return "write failed: %s (%s)" % (r["err"], txt(r.get("what", "")))
        b = r["ok"].encode("latin1")
        return self.judge(h, subs, b)

    def judge(self, h, subs, b):
        if len(b) < 1024 or (len(b) - 1024) % 128:
            return "the file has %d bytes" % len(b)
        g = b[:1024]
        n = (len(b) - 1024) // 128

        def num(o, l):
            t = g[o:o + l]
            return int(t) if t.isdigit() else None

        def field(name, o, l, want):
            return None if g[o:o + l] == want else "header %s is %r, expected %r" % (name, g[o:o + l], want)
        dfc = g[3:11].decode("latin1")
        if dfc not in RATE:
            return "disk format code %r" % dfc
        if h["fps"] in wr.FPS and dfc != wr.DFC_OF[h["fps"]]:
            return "disk format code %r for %r" % (dfc, h["fps"])
        rate = F(*RATE[dfc])
        e = [("code page", 0, 3, b"850"), ("character table", 12, 2, b"00"), ("language", 14, 2, T.LANGUAGES[h["lang"]][0].encode())]
        for k, o in (("opt", 16), ("oet", 48), ("tpt", 80), ("tet", 112), ("tn", 144), ("tc", 176), ("pub", 277), ("en", 309), ("ec", 341)):
            e.append((k, o, 32, h[k].encode().ljust(32)))
        e += [("creation date", 224, 6, h["cd"].encode()), ("revision date", 230, 6, h["rd"].encode()), ("revision number", 236, 2, b"%02d" % h["rev"]),
              ("country", 274, 3, h["co"].encode()), ("block count", 238, 5, b"%05d" % n), ("subtitle count", 243, 5, b"%05d" % len(subs))]
        for x in e:
            m = field(*x)
            if m:
                return m
        if g[11:12] not in b" 012" or g[255:256] not in b"01" or not g[256:272].isdigit() or not g[272:274].isdigit() or num(248, 3) is None:
            return "header codes are wrong: %r" % g[248:274]
        if any(x < 0x20 or x > 0x7e for x in g[208:224]) or set(g[373:1024]) - {0, 0x20}:
            return "the reference code is %r, the spare bytes %r" % (g[208:224], g[373:1024].strip(b"\0 ")[:50])
        mnc, mnr = num(251, 2), num(253, 2)
        if mnc is None or mnr is None or mnr < 1:
            return "maximum characters and rows are %r" % g[251:255]
        pos = 1024
        longest = 0
        group = b[1024] if n else 0
        if group > num(248, 3):
            return "subtitle group %d of %d" % (group, num(248, 3))
        for k, sub in enumerate(subs):
            text, ebn, first = b"", 0, None
            while True:
                if pos >= len(b):
                    return "the blocks of subtitle %d are missing" % k
                t = b[pos:pos + 128]
                pos += 128
                last = t[3] == 0xff
                if not last and t[3] != ebn:
                    return "subtitle %d: block number %d, expected %d" % (k, t[3], ebn)
                ebn += 1
                first = first or t
                if t[0] != group:
                    return "subtitle %d: group %d, where the one before is in group %d" % (k, t[0], group)
                if t[:3] != first[:3]:
                    return "subtitle %d: its blocks are numbered %r and %r" % (k, first[:3], t[:3])
                if t[15] != 0:
                    return "subtitle %d: comment flag %d" % (k, t[15])
                if t[4] > 3:
                    return "subtitle %d: cumulative status %d" % (k, t[4])
                for o, name, want in ((5, "in", sub["from"]), (9, "out", sub["to"])):
                    tc = t[o:o + 4]
                    if tc[0] > 23 or tc[1] > 59 or tc[2] > 59 or tc[3] >= rate:
                        return "subtitle %d: %s time code %r is not valid at %s" % (k, name, list(tc), dfc)
                    at = (tc[0] * 60 + tc[1]) * 60 + tc[2] + F(tc[3]) / rate
                    if abs(at - wr.instant(want)) > F(1, 2) / rate + wr.HALF:
                        return "subtitle %d: %s time code %r for %r" % (k, name, list(tc), want)
                if t[13] > mnr:
                    return "subtitle %d: row %d of %d" % (k, t[13], mnr)
                if t[14] != {0: 1, 1: 2, 2: 3}[sub["lines"][0]["hp"][1]]:
                    return "subtitle %d: justification %d for reference %d" % (k, t[14], sub["lines"][0]["hp"][1])
                chunk = t[16:]
                if 0x8f in chunk:
                    i = chunk.index(0x8f)
                    if chunk[i:].strip(b"\x8f"):
                        return "subtitle %d: something follows the unused space: %r" % (k, chunk[i:])
                    chunk = chunk[:i]
                    if not last:
                        return "subtitle %d: unused space in block %d, which is not the last" % (k, ebn - 1)
                elif last:
                    return "subtitle %d: no unused space code" % k
                text += chunk
                if last:
                    break
            row, col, it, un = first[13], 0, False, False
            rows = 1
            chars = ""
            want = "".join(iso.representable(x["text"]) for l in sub["lines"] for x in l["blocks"])
            styles, wstyles = [], [(bool(x["i"]), bool(x["u"])) for l in sub["lines"] for x in l["blocks"] for _ in iso.representable(x["text"])]
            pend = b""
            for ch in text:
                if ch in (0x80, 0x81):
                    it = ch == 0x80
                elif ch in (0x82, 0x83):
                    un = ch == 0x82
                elif ch == 0x8a:
                    rows += 1
                    longest = max(longest, col)
                    col = 0
                elif ch < 0x20 and ch != 0x0a or 0x7f <= ch < 0xa0:
                    return "subtitle %d: code %02x in the text" % (k, ch)
                else:
                    if ch == 0x0a and "\n" not in want:
                        return "subtitle %d: code 0a in the text" % k
                    if ch in iso.DIACRITICALS:
                        pend = bytes([ch])
                        continue
                    d = iso.decode(pend + bytes([ch]))
                    pend = b""
                    col += len(d)
                    chars += d
                    styles += [(it, un)] * len(d)
            longest = max(longest, col)
            if it or un:
                return "subtitle %d: italic or underline is still on at the end" % k
            if chars != want:
                return "subtitle %d: text %r, expected %r" % (k, chars, want)
            if styles != wstyles:
                return "subtitle %d: italic and underline of %r are wrong" % (k, chars)
            if len(sub["lines"]) <= wr.ROWS and row + rows - 1 > mnr:
                return "subtitle %d: rows %d to %d of %d" % (k, row, row + rows - 1, mnr)
            if rows < len(sub["lines"]):
                return "subtitle %d: %d rows, expected %d" % (k, rows, len(sub["lines"]))
        if pos != len(b):
            return "%d blocks are left over" % ((len(b) - pos) // 128)
        if mnc < min(longest, 99):
            return "maximum characters is %d, the longest row has %d" % (mnc, longest)
        return None
