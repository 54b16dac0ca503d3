"""An independent encoder of EBU Tech 3264 files, a generator of such files and the model of what they say."""
from pbt import iso, stltables as T
from pbt.model import run, from_ms, TOP, LEFT, HCENTRE, RIGHT

DFC = ["STL25.01", "STL24.01", "STL23.01", "STL30.01"]
RATE = {"STL23.01": (24000, 1001), "STL24.01": (24, 1), "STL25.01": (25, 1), "STL30.01": (30, 1)}
COLOURS = [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (1.0, 1.0, 0.0), (0.0, 0.0, 1.0), (1.0, 0.0, 1.0), (0.0, 1.0, 1.0), (1.0, 1.0, 1.0)]
PLAIN = [c for c in sorted(iso.SINGLE) if c != 0x0a]
IGNORED = [0x08, 0x09, 0x0b, 0x0c, 0x0d, 0x1c, 0x1d, 0x84, 0x85]

# name, offset, length
STRINGS = [("opt", 16, 32), ("oet", 48, 32), ("tpt", 80, 32), ("tet", 112, 32), ("tn", 144, 32), ("tcd", 176, 32), ("slr", 208, 16),
           ("cd", 224, 6), ("rd", 230, 6), ("rn", 236, 2), ("tcp", 256, 8), ("tcf", 264, 8), ("co", 274, 3), ("pub", 277, 32), ("en", 309, 32), ("ecd", 341, 32)]


def g_field(s, n):
    k = s.n(5)
    if k < 3:
        t = s.pick(["", "Title", "A longer name, with (things)", "x" * n, "0" * n, " lead"])[:n]
        return [ord(c) for c in t.ljust(n)]
    if k == 3:
        return [s.int(32, 126) for _ in range(n)]
    return [s.n(256) for _ in range(n)]


def g_gsi(s):
    g = {"cpn": s.pick([850, 437, 860, 863, 865, 0, 999, 12]), "dfc": s.pick(DFC), "dsc": s.n(4), "lang": s.n(len(T.LANGUAGES))}
    for n, _, l in STRINGS:
        g[n] = g_field(s, l)
    for n in ("cd", "rd", "tcp", "tcf"):
        if s.flag():
            g[n] = [48 + s.n(10) for _ in g[n]]
    g["rn"] = [48 + s.n(10), 48 + s.n(10)]
    g["tns"] = s.pick([0, 1, 7, 99999, s.n(100000)])
    g["tng"] = s.pick([1, 0, 255, 999])
    g["mnc"] = s.n(100)
    g["mnr"] = s.pick([23, 99, 12, 11, 1, 15, 98, s.int(1, 99)])
    g["tcs"] = s.n(2)
    g["tnd"], g["dsn"] = s.n(10), s.n(10)
    g["spare"] = [] if s.flag(2, 3) else [s.n(256) for _ in range(16)]
    return g


def g_text(s, lo=1, hi=6):
    out = []
    for _ in range(s.int(lo, hi)):
        k = s.n(6)
        if k < 3:
            out += [ord(c) for c in s.pick(["Hello", "a", " ", "the end.", "No, 1!", "-", "x y"])]
        elif k < 4:
            out.append(s.pick(PLAIN))
        else:
            d = s.pick(iso.DIA_CODES)
            out += [d, ord(s.pick(iso.DIACRITICALS[d][1]))]
    return out


def g_row(s, allow_empty):
    items = []
    for _ in range(s.size(0 if allow_empty else 1, 5, 60)):
        k = s.n(9)
        if k < 4:
            items.append(["t", g_text(s)])
        elif k == 4:
            items.append(["i", s.n(2)])
        elif k == 5:
            items.append(["u", s.n(2)])
        elif k < 8:
            items.append(["c", s.n(8)])
        else:
            items.append(["x", s.pick(IGNORED)])
    return items


def g_tc(s, rate):
    return [s.edge(0, 23), s.edge(0, 59), s.edge(0, 59), s.edge(0, rate - 1)]


def g_sub(s, rate, sn, maxvp=99):
    rows = [g_row(s, True) for _ in range(s.size(0, 4, 60))]
    rows.append([["t", g_text(s)]] + g_row(s, True) if s.flag(2, 3) else g_row(s, True) + [["t", g_text(s)]])
    if s.flag(1, 5):
        t = g_text(s, 4, 6) + [0x20]
        rows[-1].append(["t", t * (s.int(30, 1000) if s.flag(1, 40) else s.int(2, 30))])
        if len(rows[-1][-1][1]) > 12000:
            rows[-1][-1][1] = t * (12000 // len(t))
    kind = s.pick(["", "", "", "", "", "comment", "user"])
    return {"kind": kind, "sn": sn, "sgn": s.n(3), "cs": s.n(4), "from": g_tc(s, rate), "to": g_tc(s, rate),
            "vp": s.edge(0, maxvp, 1, 12, 20), "jc": s.n(4), "rows": rows,
            # sizes of the first blocks, when not full
            "cuts": [s.int(0, 111) for _ in range(s.int(1, 3))] if s.flag(1, 6) else [],
            "junk": [s.n(256) for _ in range(s.int(1, 6))] if s.flag(1, 4) else [],
            "later": [s.n(256) for _ in range(3)]}


def frames(g):
    n, d = RATE[g["dfc"]]
    return -(-n // d)


def g_doc(s, lo=0, hi=8):
    g = g_gsi(s)
    maxvp = s.pick([g["mnr"], 23, 99])
    doc = {"gsi": g, "subs": [], "tail": []}
    sn = s.pick([0, 1, 254, 65533])
    # writers which do not number their subtitles
    same = s.flag(1, 8)
    for _ in range(s.size(lo, hi, 8 * hi)):
        sub = g_sub(s, frames(g), sn % 65536, min(maxvp, 99))
        if s.flag(1, 12):
            # user data among its blocks, after the nth
            sub["between"] = [[s.pick([0, 0, 1, 2]), [s.n(256) for _ in range(s.int(0, 20))]] for _ in range(s.int(1, 2))]
        if not same and s.flag(1, 12):
            # its last block is lost, so that only the next one's number tells where it ends
            sub["open"] = 1
        doc["subs"].append(sub)
        if not same:
            sn += 1
    if s.flag(1, 8):
        doc["tail"] = [s.n(256) for _ in range(s.int(1, 130))]
    return doc


def text_bytes(sub):
    out = []
    for n, row in enumerate(sub["rows"]):
        if n:
            out.append(0x8a)
        for it in row:
            if it[0] == "t":
                out += it[1]
            elif it[0] == "i":
                out.append(0x80 if it[1] else 0x81)
            elif it[0] == "u":
                out.append(0x82 if it[1] else 0x83)
            else:
                out.append(it[1])
    return bytes(out)


def tti(sub):
    """-> list of 128-byte blocks"""
    text = text_bytes(sub)
    chunks = []
    cuts = list(sub["cuts"])
    while True:
        k = 112
        if cuts and len(text) > 0:
            k = cuts.pop(0)
        chunks.append(text[:k])
        text = text[k:]
        if not text:
            break
    blocks = []
    for n, c in enumerate(chunks):
        last = n == len(chunks) - 1
        ebn = 0xff if last and not sub.get("open") else n
        if sub["kind"] == "user":
            ebn = 0xfe
        if len(c) < 112:
            c = c + b"\x8f"
            if last:
                c += bytes(sub["junk"])
            c = c[:112].ljust(112, b"\x8f")
        vp, jc, cs = sub["vp"], sub["jc"], sub["cs"]
        f, t = bytes(sub["from"]), bytes(sub["to"])
        if n and sub["later"][0] % 2:
            # only the first block's times and position count; they need not be repeated
            vp, jc = sub["later"][1] % 100, sub["later"][2] % 4
            f = t = bytes(4)
        blocks.append(bytes([sub["sgn"], sub["sn"] & 255, sub["sn"] >> 8, ebn, cs]) + f + t + bytes([vp, jc, 1 if sub["kind"] == "comment" else 0]) + c)
        for at, data in sub.get("between", []):
            if at == n:
                blocks.append(bytes([sub["sgn"], sub["sn"] & 255, sub["sn"] >> 8, 0xfe, cs]) + bytes(8) + bytes([0, 0, 0]) + bytes(data).ljust(112, b"\x8f"))
    return blocks


def header(g, blocks):
    b = bytearray(b" " * 1024)

    def put(o, data):
        b[o:o + len(data)] = data
    put(0, b"%03d" % g["cpn"])
    put(3, g["dfc"].encode())
    put(11, T.DISPLAY[g["dsc"]][0].encode())
    put(12, b"00")
    put(14, T.LANGUAGES[g["lang"]][0].encode())
    for n, o, l in STRINGS:
        put(o, bytes(g[n]))
    put(238, b"%05d" % blocks)
    put(243, b"%05d" % g["tns"])
    put(248, b"%03d" % g["tng"])
    put(251, b"%02d" % g["mnc"])
    put(253, b"%02d" % g["mnr"])
    put(255, b"%d" % g["tcs"])
    put(272, b"%d" % g["tnd"])
    put(273, b"%d" % g["dsn"])
    put(373, bytes(g["spare"]))
    return bytes(b)


def render(doc):
    blocks = [b for sub in doc["subs"] for b in tti(sub)]
    return header(doc["gsi"], len(blocks)) + b"".join(blocks) + bytes(doc["tail"])


def ms_of(tc, rate):
    n, d = rate
    f = tc[3]
    if (2 * f * 1000 * d) % (2 * n) == n:
        return (tc[0], tc[1], tc[2], f * 1000.0 * d / n)
    ms = (2 * f * 1000 * d + n) // (2 * n)
    return (tc[0], tc[1], tc[2], ms)


def rows_max(g):
    return 12 if g["mnr"] == 99 else g["mnr"]


def expected(doc):
    """-> per subtitle, its runs (comments and user data give none)"""
    g = doc["gsi"]
    mnr = rows_max(g)
    lowest = 0
    out = []
    for sub in doc["subs"]:
        runs = []
        if sub["kind"] == "":
            lowest = max(lowest, sub["vp"] + len(sub["rows"]) - 1)
            it, un = False, False
            hp = (0.0, {0: HCENTRE, 1: LEFT, 2: HCENTRE, 3: RIGHT}[sub["jc"]])
            for n, row in enumerate(sub["rows"]):
                col = COLOURS[7]
                pend = b""
                style = None

                def flush():
                    if pend:
                        runs.append(run(iso.decode(pend), ms_of(sub["from"], RATE[g["dfc"]]), ms_of(sub["to"], RATE[g["dfc"]]), i=style[0], u=style[1],
                                        col=style[2], hp=hp, vp=(None, sub["vp"] + n, mnr, TOP)))
                for x in row:
                    if x[0] == "i":
                        it = bool(x[1])
                    elif x[0] == "u":
                        un = bool(x[1])
                    elif x[0] == "c":
                        col = COLOURS[x[1]]
                    if x[0] == "t":
                        if style != (it, un, col):
                            flush()
                            pend = b""
                            style = (it, un, col)
                        pend += bytes(x[1])
                flush()
        out.append(runs)
    if lowest > mnr:
        for runs in out:
            for r in runs:
                r["vp"] = (None, r["vp"][1] - (lowest - mnr), mnr, TOP)
    return out


def esc(b):
    return bytes(b).decode("latin1")


def expected_gsi(doc):
    g = doc["gsi"]
    n = sum(len(tti(x)) for x in doc["subs"])
    f = {k: esc(g[k]) for k, _, _ in STRINGS}
    return [g["cpn"], None, g["dsc"], 0, g["lang"], f["opt"], f["oet"], f["tpt"], f["tet"], f["tn"], f["tcd"], f["slr"], f["cd"], f["rd"], f["rn"],
            n, g["tns"], g["tng"], g["mnc"], rows_max(g), g["tcs"], f["tcp"], f["tcf"], g["tnd"], g["dsn"], f["co"], f["pub"], f["en"], f["ecd"]]


META_KEYS = ["Code page number", "Frame rate", "Display standard", "Language group", "Language", "Original programme title", "Original episode title",
             "Translated programme title", "Translated episode title", "Translator name", "Translator contact details", "Subtitle list reference code",
             "Creation date", "Revision date", "Revision number", "TTI blocks", "Number of subtitles", "Subtitle groups", "Maximum characters", "Maximum rows",
             "Timecode status", "Start of programme", "First in cue", "Disks", "Disk sequence number", "Country of origin", "Publisher", "Editor name",
             "Editor contact details"]


def frame_rate_ok(dfc, v):
    return v in ((23, 24, "23", "24", "23.976") if dfc == "STL23.01" else (RATE[dfc][0], str(RATE[dfc][0])))


def expected_meta(doc):
    e = expected_gsi(doc)
    m = {}
    for k, v in zip(META_KEYS, e):
        m[k] = v if isinstance(v, str) else str(v)
    g = doc["gsi"]
    m["Display standard"] = T.DISPLAY[g["dsc"]][1]
    m["Language group"] = T.GROUP[0][1]
    m["Language"] = T.LANGUAGES[g["lang"]][1]
    m["Timecode status"] = T.STATUS[g["tcs"]][1]
    return m


def compare_header(doc, ok):
    e, a = expected_gsi(doc), ok["gsi"]
    for n, (x, y) in enumerate(zip(e, a)):
        if META_KEYS[n] == "Frame rate":
            if not frame_rate_ok(doc["gsi"]["dfc"], y):
                return "frame rate member is %r for %s" % (y, doc["gsi"]["dfc"])
        elif x != y:
            return "member %s is %r, expected %r" % (META_KEYS[n], y, x)
    m, got = expected_meta(doc), ok["meta"]
    if sorted(m) != sorted(got):
        return "metadata keys are %r" % sorted(got)
    for k in m:
        if k == "Frame rate":
            if not frame_rate_ok(doc["gsi"]["dfc"], got[k]):
                return "metadata frame rate is %r" % got[k]
        elif m[k] != got[k]:
            return "metadata %s is %r, expected %r" % (k, got[k], m[k])
    return None
