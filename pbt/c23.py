from pbt.core import Check, txt
from pbt import docs, srt, ssa, vtt, stlt, stlbin

HOSTILE = ["<i>", "</i>", "<b>", "</b>", "<u>", "</u>", "<I>", "{i}", "{/i}", "{b}", "{/b}", "{u}", "{/u}", "<font color=\"#ff0000\">", "<font color='#00ff0080'>", "<font color=\"rgba(1,2,3,4)\">", "</font>", "</font>",
           "<font", "<font color=\"#00ff00\"", "<FONT COLOR=#0000ff>", "{\\an8}", "{\\an1}", "{\\an5}", "{\\an9}", "{\\i1}", "{\\b1}", "{\\u1}", "{\\i0}", "{\\c&H0000ff&}", "{\\c}", "{\\fs20}", "{\\pos(10,20)}",
           "{\\pos(288,0)", "{\\an7", "{\\", "{", "}", "<", ">", "\u2028", "\u2028\u2028", "\u202b", "\\N", "a", "text", "Hello there", " ", "-", "\u00e9", "1", "{\\i1\\b1}", "<i", "i>", "{\\an0}", "{\\i}", "{\\fs}", "{\\c&H12&}",
           "<font color=\"#123\">", "{\\pos(1)}", "{\\an}"]
SSATAGS = ["{\\i1}", "{\\i0}", "{\\b1}", "{\\u1}", "{\\b0}", "{\\an8}", "{\\an5}", "{\\an1}", "{\\an3}", "{\\pos(10,20)}", "{\\pos(384,288)}", "{\\c&H0000ff&}", "{\\c}", "{\\fs20}", "{\\fs64}", "{\\N", "\\N", "\\n", "{\\i1", "{\\",
           "{", "}", "{}", "a", "some text", " ", "x,y", "\u00e9", "{\\t(\\i1)}", "{\\clip(1,2,3,4)}", "{\\i1\\b1\\u1}", "{\\i1}{\\b1}", "{\\r}", "{note}", "\\h", "{\\an}", "{\\c&H}", "{\\fs}", "{\\pos(1)}"]
STLT = ["^B", "^I", "^U", "^", "|", "||", "a", "text, more", " ", "^X", "//", "$Bold = True", "\u00e9", "x", "^^", "^|", ","]


def hostile(s, toks, lo, hi):
    return "".join(s.pick(toks) for _ in range(s.int(lo, hi)))


def g_srt(s):
    def part(s):
        c = srt.g_cue(s)
        c["gap"] = 1
        L = srt.r_cue_lines(c)
        if s.flag():
            L[2:] = [x for x in (hostile(s, HOSTILE, 1, 6) for _ in range(s.int(0, 3))) if x]
        if s.flag(1, 40):
            L[1] = s.pick(["bad", "00:00:01,000 --> ", "00:00:01,000 --> 00:00:02", "x --> 00:00:02,000"])
        return "\n".join(L) + "\n" * s.pick([2, 2, 2, 3, 4])
    return "", s.list(part, 2, 5, 0.5)


def g_vtt(s):
    def part(s):
        b = vtt.g_block(s)
        L = vtt.block_lines(b)
        if b["k"] == "cue" and s.flag():
            k = len(b["id"]) + 1
            L[k:] = [x.replace("-->", "--") for x in (hostile(s, HOSTILE, 1, 6) for _ in range(s.int(0, 3))) if x]
        return "\n".join(L) + "\n" * s.pick([2, 2, 2, 3, 4])
    d = vtt.g_doc(s)
    d["blocks"] = []
    return "\n".join([d["head"]] + d["headlines"]) + "\n" * (d["gap"] + 1), s.list(part, 2, 5, 0.5)


def g_ssa(s):
    d = ssa.g_doc(s, s.flag())
    tmpl = dict(d, events=[], other=[o for o in d["other"] if o[0] < 3], end=1, notes=False)
    pool = [st["Name"] for st in d["styles"]] + ["Default", "Unknown"]

    def part(s):
        ev = {"kind": s.pick(["Dialogue", "Dialogue", "Dialogue", "Dialogue", "Comment"]), "start": ssa.cs(s), "end": ssa.cs(s), "style": s.pick(["", "*"]) + s.pick(pool),
              "ml": ssa.margin(s, s.pick([0, 0, s.edge(1, 300)])), "mr": ssa.margin(s, s.pick([0, 0, s.edge(1, 300)])), "mv": ssa.margin(s, s.pick([0, 0, s.edge(1, 300)]))}
        an = s.flag()
        ev["text"] = ssa.g_chunks(s, True, an, 0 if an else s.pick([0, 1, 2]))
        if s.flag():
            ev["text"] = [["t", hostile(s, SSATAGS, 1, 6)]]
        return ("; note\n" if s.flag(1, 8) else "") + ssa.event_line(d, ev) + "\n"
    head = ssa.render(tmpl)
    if not head.endswith("\n"):
        head += "\n"
    return head, s.list(part, 2, 6, 0.5)


def g_stltext(s):
    head = "".join(stlt.line(stlt.g_setting(s)) + "\n" for _ in range(s.n(4)))

    def part(s):
        if s.flag(1, 8):
            return s.pick(["// x", "", "junk", "$X", "1,2,3"]) + "\n"
        e = stlt.g_sub(s)
        if s.flag():
            e["toks"] = [["h", hostile(s, STLT, 1, 8)]]
        return stlt.line(e) + "\n"
    return head, s.list(part, 2, 6, 0.5)


def g_stlbin(s):
    g = stlbin.g_gsi(s)
    g["mnr"] = s.int(20, 98)

    def part(s):
        sub = stlbin.g_sub(s, stlbin.frames(g), s.n(65536))
        if s.flag():
            sub["rows"] = [[["t", [s.pick([0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x8a, 0x00, 0x01, 0x07, 0x0d, 0x1d, 0xc1, 0xc8, 0xa0, 0xff, 0x41, 0x61, 0x20, 0x65, 0xd0]) for _ in range(s.int(0, 20))]]]]
        sub["rows"] = sub["rows"][:16]
        n = stlbin.text_bytes(sub).count(b"\x8a")
        sub["vp"] = min(sub["vp"], max(0, g["mnr"] - n))
        return b"".join(stlbin.tti(sub)).decode("latin1")
    parts = s.list(part, 2, 5, 0.5)
    return stlbin.header(g, 0).decode("latin1"), parts


GEN = {"srt": g_srt, "vtt": g_vtt, "ssa": g_ssa, "stltext": g_stltext, "stlbin": g_stlbin}


class CHECK(Check):
    id = "C23"
    technique = "property-based testing: metamorphic relation between documents and their entries"
    rule = ("entries of all five formats, half of them with hostile text: unbalanced, unknown or unfinished markup, placement, extension blocks, comments; a shared heading; each entry is read alone "
            "and 4 arrangements (all in order, shuffled, a subset, with repetitions) must give the same runs in the corresponding order, or the error of the first entry that has one; "
            "non-trivial: at least two entries that give subtitles, one of them with markup that is not balanced")
    quick = 50000
    thorough = 700000
    assumptions = ["textual STL settings come before the subtitles; binary STL rows all fit the declared number of rows and extension block chains are complete"]

    def gen(self, s):
        fmt = s.pick(docs.FORMATS)
        head, parts = GEN[fmt](s)
        n = len(parts)
        orders = [list(range(n)), s.shuffle(range(n)), [i for i in range(n) if s.flag()], [s.n(n) for _ in range(s.int(2, 6))]]
        return {"fmt": fmt, "src": s.pick(docs.SOURCES[fmt]), "head": head, "parts": parts, "orders": orders}

    def read(self, c, env, idx):
        if c["fmt"] == "stlbin":
            data = c["head"].encode("latin1")
            body = b"".join(c["parts"][i].encode("latin1") for i in idx)
            data = data[:238] + b"%05d" % (len(body) // 128) + data[243:] + body
        else:
            data = (c["head"] + "".join(c["parts"][i] for i in idx)).encode("utf8")
        r = docs.outcome(env.drv.call("read", c["fmt"], c["src"], data))
        return r, data

    def run(self, c, env):
        self.label(c["fmt"])
        alone = [self.read(c, env, [i])[0] for i in range(len(c["parts"]))]
        good = [i for i, a in enumerate(alone) if a[0] == "ok"]
        self.label("entry refused", len(good) < len(alone))
        self.nontrivial(sum(1 for i in good if alone[i][1]) > 1)
        orders = list(c["orders"])
        if len(good) < len(alone):
            orders.append(good)
        for idx in orders:
            r, data = self.read(c, env, idx)
            bad = [alone[i] for i in idx if alone[i][0] == "err"]
            if bad:
                if r[0] != "err" or r[1] != bad[0][1]:
                    return "%s: entries %r give %s, but one alone gives %s\n%r" % (c["fmt"], idx, docs.say(r), docs.say(bad[0]), data[-1500:])
                continue
            want = ["ok", [x for i in idx for x in alone[i][1]]] + (r[2:] if r[0] == "ok" else [{}, None])
            m = docs.differ(want, r)
            if m:
                return "%s: entries %r together differ from each alone: %s\n%r" % (c["fmt"], idx, m, data[-1500:])
        return None
