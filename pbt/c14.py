from pbt.core import Check, txt
from pbt.model import compare_runs, expect_ok
from pbt import srt, ssa, vtt, stlt, stlbin, stltables as T

BAD_WORDS = ["", " ", "x", "-->", "00:00:01,000", "00:00:01,000 -->", "00:00:01,000 --> 00:00:02,000 x", "00:00:01,000 00:00:02,000", "a b c d e f", "a b c d e f g h", "100%1 sure", "00:00:01,000-->00:00:02,000",
             "<i>Hello</i>", "2", "%1 %2", "%", "00:00:01,000 --> 00:00:02,000 X1:100 X2:200 Y1:010", "Text with several words in it, more than seven of them"]
# {s} is the separator of milliseconds, {o} the other one
BAD_TIMES = ["00:00:01{o}000", "00:00:01", "00:01{s}000", "01{s}000", "1", "x", "00:00:00:01{s}000", "aa:00:01{s}000", "00:bb:01{s}000", "00:00:cc{s}000", "00:00:01{s}ddd", "00:00:01{s}", "00:00:{s}000",
             "00::01{s}000", ":00:01{s}000", "99999999999:00:01{s}000", "00:99999999999:01{s}000", "00:00:1e1{s}000", "00:00:01{s}000{s}0", "%1:00:01{s}000", "00:%2:01{s}000", "0x1:00:01{s}000", "00:00:01;000",
             "::{s}", ":", "00:00:01{s}00.0", "00:00:01{s}99999999999", "1-:00:01{s}000", "00:0+0:01{s}000", "00:00:0-1{s}000",
             "00:00:01{s}000-", "+-1:00:01{s}000", "00:--1:01{s}000", "00:00:+{s}000", "-:00:01{s}000", "9223372036854775808:00:01{s}000", "2147483648:00:01{s}000", "00:00:-2147483649{s}000"]
BAD_FONTS = ["#12", "#12345", "#1234567", "#123456789", "#ffff", "#%1", "red", "rgba(1,2,3)", "rgba(1,2,3,4", "rgb(1,2,3)", "rgba(a,b,c,d)", "#", "#f", "rgba(1 2 3 4)", "#xyz", "100%", "rgba(,,,)"]
BAD_SSA_TAG = ["cFFFFFF&", "c#ff0000", "c&00ff00&", "cH0000FF&", "c255", "cred", "c1", "c &HFFFFFF&", "c&hff00ff&", "cx&H00FF00&", "c&", "c&&"]
BAD_SSA_STYLE = ["&00FFFFFF", "&", "&X00FFFFFF", "&hFFFFFF", "&&H00FF00", "& HFFFFFF"]


def offending(words):
    return [w for w in words]


class CHECK(Check):
    id = "C14"
    rule = ("one fault put into an otherwise well-formed document: timing lines of SubRip and WebVTT (wrong number of words, each part of either time), SubRip font colours, "
            "WebVTT headers, SSA/ASS colours, times, lines without a colon and entries with too few fields, truncation of binary STL at any byte and every undefined code, unrecognised textual STL lines; every case is non-trivial")
    quick = 150000
    thorough = 2000000
    assumptions = ["lines are counted from 1 over all lines of the file, blank ones included"]

    def gen(self, s):
        k = s.n(13)
        if k == 12:
            sep = s.pick(",.")
            if s.flag(1, 3):
                v = [s.pick([0, 1, 59, 99, 100, 1000, s.n(60)]) for _ in range(2)] + [s.n(60), s.n(1000)]
                return {"k": "ctime", "sep": sep, "good": v, "t": "%s:%s:%s%s%s" % tuple([str(v[0]).zfill(s.n(4)), str(v[1]).zfill(s.n(4)), str(v[2]).zfill(s.n(4)), sep, str(v[3]).zfill(s.n(5))])}
            return {"k": "ctime", "sep": sep, "good": None, "t": s.pick(BAD_TIMES).format(s=sep, o=",." [sep == ","])}
        if k < 4:
            d = srt.g_doc(s, True, 1, 6)
            c = {"k": "srt", "doc": d, "cue": s.n(len(d["cues"])), "after": s.flag(1, 4), "nl": s.pick(["\n", "\n", "\r\n"]), "src": s.pick(["string", "file"])}
            w = s.n(4)
            if w == 0:
                c["fault"] = ["line", s.pick(BAD_WORDS) if s.flag(2, 3) else " ".join(["%1" if s.flag(1, 8) else "w"] * s.pick([1, 2, 4, 5, 6, 8, 9])), None]
                c["fault"][2] = c["fault"][1].rstrip(" ")
            elif w == 3:
                t = s.pick(BAD_FONTS)
                q = s.pick(["\"", "'", ""]) if t.startswith("#") else "\""
                c["fault"] = ["font", "<" + srt.case(s, "font") + s.pick([" ", " size=\"3\" "]) + "color=" + q + t + q + ">", t]
                c["at"] = [s.n(1001), s.n(1001)]
            else:
                t = s.pick(BAD_TIMES).format(s=",", o=".")
                good = srt.r_time(srt.span(s)[0], 0)
                tail = s.pick(["", " ", " X1:1 X2:2 Y1:3 Y2:4"])
                c["fault"] = ["time", (t + " --> " + s.pick([good, "x"]) if w == 1 else good + " --> " + t) + tail, t]
            return c
        if k < 6:
            d = vtt.g_doc(s)
            cues = [n for n, b in enumerate(d["blocks"]) if b["k"] == "cue"]
            if not cues or s.flag(1, 6):
                d["head"] = s.pick(["webvtt", " WEBVTT", "WEBVT", "%1", "1", "\u00e9", "NOTE", "x" * 300])
                return {"k": "vtthead", "doc": d, "src": s.pick(["string", "file"])}
            c = {"k": "vtt", "doc": d, "cue": s.pick(cues), "nl": s.pick(["\n", "\n", "\r\n"]), "src": s.pick(["string", "file"])}
            if s.flag(1, 3):
                w = s.pick(["00:00:01.000 -->", "-->", "--> 00:00:01.000", "00:00:01.000-->00:00:02.000", "00:00:01.000 --> 00:00:02.000 x", "a --> b c d e", "a b c d e --> g h", "%1 -->", "x--> %2"])
                c["fault"] = ["line", w, w]
            else:
                t = s.pick(BAD_TIMES).format(s=".", o=",")
                if "," in t and t.count(".") == 0 or "." in t or ":" in t or t in "1x":
                    pass
                good = vtt.r_time(vtt.span(s)[0])
                c["fault"] = ["time", (t + " --> " + s.pick([good, "x"]) if s.flag() else good + " --> " + t) + s.pick(["", " "]), t]
            return c
        if k < 8:
            d = ssa.g_doc(s, s.flag())
            c = {"k": "ssa", "doc": d, "src": s.pick(["string", "file"])}
            dl = [n for n, e in enumerate(d["events"]) if e["kind"] == "Dialogue"]
            col = [f for f in ("PrimaryColour", "BackColour") if f in d["fmt"]]
            if dl and s.flag(1, 3):
                w = s.pick(["nocolon", "fields", "time", "time"])
                if w == "nocolon":
                    c["fault"] = [w, s.n(10001), s.pick(["Dialogue", "x", "Format", "Style", "!", "Dialogue;", "PlayResX=10", "a b c"])]
                elif w == "fields":
                    c["fault"] = [w, s.n(10001), s.n(6)]
                else:
                    c["fault"] = [w, s.pick(dl), s.pick(["start", "end"]), s.pick(["00:01.00", "0:00:01", "1", "", "0:00:01.00.0", "0:0:00:01.00", "0:00:01:00:00", "x", "0.00", "00:00:01,000", "0:00;01.00"])]
            elif d["styles"] and col and (not dl or s.flag(1, 3)):
                c["fault"] = ["style", s.n(len(d["styles"])), s.pick(col), s.pick(BAD_SSA_STYLE)]
            elif dl:
                ev = s.pick(dl)
                c["fault"] = ["tag", ev, s.n(len(d["events"][ev]["text"]) + 1), s.pick(["", "\\i1", "\\bord2"]) + "\\" + s.pick(BAD_SSA_TAG) + s.pick(["", "\\b1"])]
            else:
                c["fault"] = None
            return c
        if k < 10:
            d = stlbin.g_doc(s, 0, 4)
            d["tail"] = []
            c = {"k": "stlbin", "doc": d, "src": s.pick(["stream", "file", "fstream"])}
            w = s.n(3)
            if w < 2:
                c["cut"] = [s.n(4), s.n(10001)]
            else:
                f = s.pick(["dfc", "dsc", "lgc", "lc", "tcs", "cf"])
                c["code"] = [f, [s.n(256) for _ in range(8)], s.n(8)]
            return c
        d = stlt.g_doc(s)
        bad = []
        for _ in range(s.int(1, 4)):
            e = stlt.g_sub(s)
            bad.append([s.n(1001), e, s.n(2), s.n(5), s.n(8), s.pick("abxXzoOlI-+.;")])
        return {"k": "stltext", "doc": d, "bad": bad, "src": s.pick(["stream", "fstream"])}

    def fixed(self, tier):
        return [{"k": "far", "n": n, "font": f} for n in (300, 9000, 20000) + ((150000,) if tier == "thorough" else ()) for f in (0, 1)]

    def run_far(self, c, env):
        """a fault after very many lines"""
        L = ["1", "00:00:01,000 --> 00:00:02,000", "x", ""] * c["n"] + ["1"] + (["00:00:01,000 --> 00:00:02,000", "<font color=\"#12\">y</font>"] if c["font"] else ["bad"])
        r = env.drv.call("read", "srt", "file" if c["n"] % 20000 else "string", ("\n".join(L) + "\n").encode())
        if r.get("err") != "SubripError" or r["line"] != len(L):
            return "the fault on line %d gives %s, line %r" % (len(L), r.get("err"), r.get("line"))
        return self.context(L, len(L) - 1, r["context"])

    def run(self, c, env):
        k = c["k"]
        self.label(k)
        self.nontrivial()
        return getattr(self, "run_" + k)(c, env)

    # -- line oriented formats

    def lines_srt(self, c):
        """the lines, and the index of the one with the fault"""
        d = c["doc"]
        L, bad = [""] * d["lead"], None
        for n, cue in enumerate(d["cues"]):
            x = srt.r_cue_lines(cue)
            if n == c["cue"]:
                if c["fault"][0] == "font":
                    rows = cue["rows"]
                    if not any(srt.r_row(r) for r in rows):
                        rows = [[["t", "x"]]]
                        x = x[:2] + ["x"]
                    r = c["at"][0] * len(rows) // 1001
                    row = rows[r]
                    at = c["at"][1] * (len(row) + 1) // 1001
                    # the tag goes between two tokens of a row which is not empty
                    x[2 + r] = srt.r_row(row[:at]) + c["fault"][1] + srt.r_row(row[at:])
                    if at and row[at - 1][0] in ("t", "rle"):
                        x[2 + r] = srt.r_row(row[:at]) + " " + c["fault"][1] + srt.r_row(row[at:])
                    # an empty row above it would have ended the cue
                    bad = len(L) + 2 + r
                    if "" in [srt.r_row(q) for q in rows[:r]]:
                        x = x[:2] + ["x"] * r + x[2 + r:]
                else:
                    x[1] = c["fault"][1]
                    bad = len(L) + 1
            L += x
            L += [""] * (cue["gap"] if n < len(d["cues"]) - 1 else d["end"])
        return L, bad

    def context(self, L, bad, got):
        ctx = [txt(x).rstrip("\r\n") for x in got]
        want = L[max(0, bad - 2):bad + 1]
        n = len(ctx)
        # where in the file could the context start?
        for st in range(max(0, bad - n), min(bad - len(want) + 2, bad + 1)):
            end = st + n
            if ctx == (L + [""])[st:end] and st <= bad - len(want) + 1 and bad < end:
                return None
        return "the context is %r, which is not the part of the file around line %d (%r)" % (ctx, bad + 1, want)

    def run_srt(self, c, env):
        L, bad = self.lines_srt(c)
        data = (("\ufeff" if c["doc"]["bom"] else "") + c["nl"].join(L) + c["nl"]).encode("utf8")
        self.label("srt fault in " + c["fault"][0])
        r = env.drv.call("read", "srt", c["src"], data)
        m = None
        if r.get("err") != "SubripError":
            m = "gives %s, not a SubRip error" % (r.get("err") or "%d runs" % len(r["ok"]["subs"]))
        elif r["line"] != bad + 1:
            m = "is reported on line %r, but is on line %d" % (r["line"], bad + 1)
        elif (c["fault"][2] or "empty") not in txt(r["what"]):
            m = "is reported as %r, which does not say what was seen" % txt(r["what"])
        else:
            x = self.context(L, bad, r["context"])
            m = x and "reported: " + x
        return m and "the fault %r %s\ndocument: %r" % (c["fault"], m, data[:2500])

    def run_vtt(self, c, env):
        d = c["doc"]
        L = [d["head"]] + d["headlines"] + [""] * d["gap"]
        bad = None
        for n, b in enumerate(d["blocks"]):
            x = vtt.block_lines(b)
            if n == c["cue"]:
                t = len(b["id"])
                x[t] = c["fault"][1]
                bad = len(L) + t
            L += x
            L += [""] * (b["gap"] if n < len(d["blocks"]) - 1 else d["end"])
        data = (("\ufeff" if d["bom"] else "") + c["nl"].join(L) + c["nl"]).encode("utf8")
        r = env.drv.call("read", "vtt", c["src"], data)
        m = None
        if r.get("err") != "WebVTTError":
            m = "gives %s, not a WebVTT error" % (r.get("err") or "%d runs" % len(r["ok"]["subs"]))
        elif c["fault"][2] not in txt(r["what"]):
            m = "is reported as %r, which does not say what was seen" % txt(r["what"])
        else:
            x = self.context(L, bad, r["context"])
            m = x and "reported: " + x
        return m and "the fault %r %s\ndocument: %r" % (c["fault"], m, data[:2500])

    def run_vtthead(self, c, env):
        data = vtt.render(c["doc"]).encode("utf8")
        r = env.drv.call("read", "vtt", c["src"], data)
        if r.get("err") != "WebVTTHeaderError":
            return "a document without the WEBVTT header gives %s\ndocument: %r" % (r.get("err") or "%d runs" % len(r["ok"]["subs"]), data[:2500])

    def run_ssa(self, c, env):
        d, f = c["doc"], c["fault"]
        if f is None:
            return None
        if f[0] in ("nocolon", "fields", "time"):
            self.label("ssa " + f[0])
            if f[0] == "time":
                ev = [dict(x) for x in d["events"]]
                ev[f[1]]["raw" + f[2]] = f[3]
                d = dict(d, events=ev)
            L = ssa.render(d).split("\n")
            # the lines after which a section that is read goes on
            part, ok = "[Script Info]", []
            for n, x in enumerate(L):
                x = x.strip().lstrip("\ufeff")
                if x.startswith("["):
                    part = x
                if part in ("[Script Info]", "[V4 Styles]", "[V4+ Styles]", "[Events]"):
                    ok.append(n + 1)
            if f[0] == "nocolon":
                L.insert(ok[f[1] * len(ok) // 10001], f[2])
            elif f[0] == "fields":
                at = [n for n, x in enumerate(L) if n in ok and x.strip().startswith(("Dialogue:", "Style:"))]
                n = at[f[1] * len(at) // 10001]
                h, b = L[n].split(":", 1)
                b = b.split(",")
                k = [m for m in range(n) if L[m].strip().startswith("Format:")][-1]
                # the fields that remain are too few, whatever commas there are in the text
                b = b[:min(f[2], L[k].count(","))]
                if not b:
                    b = [""]
                if len(b) > L[k].count(","):
                    return None
                L[n] = h + ":" + ",".join(b)
            r = env.drv.call("read", "ssa", c["src"], "\n".join(L).encode("utf8"))
            if "err" not in r:
                return "%r gives no error\ndocument: %r" % (f, "\n".join(L)[:2500])
            return None
        if f[0] == "style":
            st = [dict(x) for x in d["styles"]]
            st[f[1]][f[2]] = f[3]
            d = dict(d, styles=st)
        else:
            ev = [dict(x) for x in d["events"]]
            t = list(ev[f[1]]["text"])
            t.insert(f[2], ["tags", [["un", None, f[3]]]])
            ev[f[1]]["text"] = t
            d = dict(d, events=ev)
        data = ssa.render(d).encode("utf8")
        r = env.drv.call("read", "ssa", c["src"], data)
        if r.get("err") != "SSAError":
            return "the malformed colour %r gives %s, not an SSA error\ndocument: %r" % (f, r.get("err") or "%d runs" % len(r["ok"]["subs"]), data[:2500])

    def run_ctime(self, c, env):
        r = env.drv.call("convert_time", c["t"], c["sep"])["ok"]
        if c["good"]:
            h, m, sec, ms = c["good"]
            total = ((h * 60 + m) * 60 + sec) * 1000 + ms
            for x in (r[0], r[2]):
                if x is None or ((x[0] * 60 + x[1]) * 60 + x[2]) * 1000 + x[3] != total:
                    return "the time %r is taken for %r" % (c["t"], x)
            return None
        if r[0] is not None or r[2] is not None:
            return "the malformed time %r is taken for %r" % (c["t"], r)
        return None if r[1] else "nothing is said about what was expected for %r" % c["t"]

    def run_stlbin(self, c, env):
        d = c["doc"]
        data = stlbin.render(d)
        if "cut" in c:
            k, at = c["cut"]
            n = len(data)
            if k == 0:
                cut = at * n // 10001
            elif k == 1:
                cut = n - 1 - at * 128 // 10001
            elif k == 2:
                cut = min(n - 1, 1024 + 128 * (at % 9) - (at // 100) % 2)
            else:
                cut = at * 1024 // 10001
            cut = max(0, min(n - 1, cut))
            self.label("cut in header" if cut < 1024 else "cut after header")
            what, data = "cut after %d of %d bytes" % (cut, n), data[:cut]
        else:
            f, v, i = c["code"]
            b = bytearray(data)
            if f == "cf" and len(b) == 1024:
                f = "dfc"
            if f == "cf":
                at, n, good = 1024 + 128 * (i * ((len(b) - 1024) // 128) // 8) + 15, 1, [b"\0", b"\1"]
            else:
                at, n, good = {"dfc": (3, 8, [x.encode() for x in stlbin.DFC]), "dsc": (11, 1, [x.encode() for x, _ in T.DISPLAY]), "lgc": (12, 2, [x.encode() for x, _ in T.GROUP]),
                               "lc": (14, 2, [x.encode() for x, _ in T.LANGUAGES]), "tcs": (255, 1, [b"0", b"1"])}[f]
            new = bytes(b[at:at + n])
            if f == "dfc":
                # near misses
                new = bytearray(new)
                new[i] = v[0]
                new = bytes(new)
            else:
                new = bytes(v[:n])
            if new in good:
                return None
            self.label("undefined " + f)
            b[at:at + n] = new
            what, data = "with the undefined code %r for %s" % (new, f), bytes(b)
        r = env.drv.call("read", "stlbin", c["src"], data)
        if r.get("err") != "STLError":
            return "a file %s gives %s, not an STL error" % (what, r.get("err") or "%d runs" % len(r["ok"]["subs"]))

    def run_stltext(self, c, env):
        L = [[stlt.line(e), e] for e in c["doc"]["e"]]
        for at, e, which, part, pos, ch in c["bad"]:
            t = list(e["from"] if which == 0 else e["to"])
            words = ["%02d" % x for x in t]
            w = part % 4
            if part == 4:
                # a part too few or too many
                words = words[:3] if pos % 2 else words + ["00"]
            else:
                words[w] = words[w][:pos % 3] + ch + words[w][pos % 3:]
            bad = ":".join(words)
            good = "%02d:%02d:%02d:%02d" % tuple(e["to"] if which == 0 else e["from"])
            p = [bad, good] if which == 0 else [good, bad]
            # "//" would make it a comment, which is no fault
            line = p[0] + " , " + p[1] + " , " + "".join(x[1] for x in e["toks"])
            L.insert(at * (len(L) + 1) // 1001, [line, None])
        data = "\n".join(x for x, _ in L).encode("utf8") + b"\n"
        r = env.drv.call("read", "stltext", c["src"], data)
        m = expect_ok(r) or compare_runs(stlt.expected({"e": [e for _, e in L if e]}), r["ok"]["subs"])
        return m and "with unrecognised lines: %s\ndocument: %r" % (m, data[:2500])
