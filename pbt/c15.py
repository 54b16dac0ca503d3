import os, re
from pbt.core import Check
from pbt import docs, stlt

STEMS = ["film", "a b", "x.srt", "x.stl.", "\u00e9t\u00e9", "file.en", "STL", "srt", "stl", "-", "100%", "a.b.c", "%1"]
OTHER = ["", ".txt", ".sub", ".vtx", ".srtx", ".st", ".stl2", ".sr", ".s", ".stlx", ".rts", ".xsrt", ".srt~", ".STL1", ".sr t", ".", ".bin"]
DFC = re.compile(rb"(?s)...STL[0-9][0-9]\.[0-9][0-9]")
COMMENTS = ["// STL subtitles for the film", "// STL", "//\tSTL file", "   STL25", "// STL25 format", "// STL24.", "abcSTL", "// STLs", "\u00e9\tSTL", "// STL format 1.0"]


def spell(s, ext):
    return "." + "".join(c.upper() if s.flag() else c for c in ext)


class CHECK(Check):
    id = "C15"
    rule = ("sequences of 1 to 6 openings by name: extensions in any case or unknown, contents of any format (also not matching the extension), empty, damaged, cut short, textual STL "
            "that mentions STL where a binary file has its code, missing files; each result is compared with that of the reader of the format, and the open descriptors are counted; "
            "non-trivial: a file that exists with an extension that is known")
    quick = 24000
    thorough = 500000
    assumptions = ["the name has something before the extension; a file that begins like binary STL with a code that is not a disk format code may be taken for either"]

    def g_file(self, s):
        k = s.n(10)
        ext = spell(s, s.pick(["srt", "stl", "stl"])) if not s.flag(1, 6) else s.pick(OTHER)
        fmt = ("srt" if ext.lower() == ".srt" else s.pick(["stltext", "stlbin"])) if not s.flag(1, 6) else s.pick(docs.FORMATS)
        f = {"name": s.pick(STEMS) + ext, "sub": s.pick(["", "", "dir.stl", "dir.srt"])}
        if k == 0:
            f["missing"] = True
            f["dir"] = s.flag(1, 4)
        elif k == 1:
            f["raw"] = s.pick(["", "\n", "x", "abcSTL25.0", "850STL25.01", "850STL", "1\n", "\ufeff", "850STL25.01" + " " * s.n(1100), "STL25.01", "  STL25.01", "1\n00:00:01,000 --> x"])
        else:
            f["doc"] = docs.gen(s, fmt)
            if fmt == "stltext" and s.flag(1, 3):
                f["doc"]["doc"]["e"].insert(0, {"k": "junk", "line": s.pick(COMMENTS)})
            f["edits"] = docs.g_edits(s) if s.flag(1, 3) else []
            if fmt == "stlbin" and s.flag(1, 6):
                f["cut"] = s.n(1001)
        return f

    def gen(self, s):
        return [self.g_file(s) for _ in range(s.int(1, 6))]

    def run(self, c, env):
        d = env.drv.scratch + "/files"
        for sub in ("", "/dir.stl", "/dir.srt"):
            os.makedirs(d + sub, exist_ok=True)
        if not env.drv.p:
            env.drv.call("read", "srt", "string", b"")
        env.drv.call("factory", d + "/none.xyz")
        before = env.drv.call("fds")["ok"]
        for n, f in enumerate(c):
            path = (d + "/" + f["sub"] + "/" + f["name"]).replace("//", "/")
            ext = os.path.splitext(f["name"])[1].lower()
            if ext == "." or f["name"].endswith("."):
                ext = "?"
            data = None
            made = False
            if f.get("dir") and not os.path.exists(path):
                os.mkdir(path)
                made = True
                self.label("directory")
            if not f.get("missing"):
                if "raw" in f:
                    data = f["raw"].encode("utf8")
                else:
                    data = docs.edit(docs.render(f["doc"]), f["edits"])
                    if "cut" in f:
                        data = data[:len(data) * f["cut"] // 1000]
                with open(path, "wb") as o:
                    o.write(data)
            what = "%s with %r" % (f["name"], data if data is None else data[:400])
            r = env.drv.call("factory", path)
            if data is not None:
                os.unlink(path)
            if made:
                os.rmdir(path)
            m = self.judge(env, ext, data, r)
            if m:
                return "opening %d, %s: %s" % (n, what, m)
            after = env.drv.call("fds")["ok"]
            if after != before:
                return "opening %d, %s: %d open files before, %d after" % (n, what, before, after)
        return None

    def judge(self, env, ext, data, r):
        if ext not in (".srt", ".stl"):
            self.label("unknown extension")
            return None if r is None or r == {"ok": None} else "an unknown extension gives %r" % str(r)[:300]
        if data is None:
            self.label("missing")
            return None if isinstance(r, dict) and "err" in r else "a missing file gives %r" % str(r)[:300]
        self.nontrivial()
        if ext == ".srt":
            fmts = [("srt", "file")]
        else:
            if DFC.match(data):
                fmts = [("stlbin", "stream")]
            elif len(data) >= 11 and data[3:6] == b"STL" and not data[6:11].strip(b"0123456789.").isascii():
                fmts = [("stlbin", "stream"), ("stltext", "stream")]
            elif len(data) >= 11 and data[3:6] == b"STL" and data[:3].isdigit():
                fmts = [("stlbin", "stream"), ("stltext", "stream")]
            else:
                fmts = [("stltext", "stream")]
        self.label(fmts[0][0])
        if r is None or r == {"ok": None}:
            return "no reader"
        got = docs.outcome(r)
        self.label("rejected", got[0] == "err")
        ms = []
        for fmt, src in fmts:
            m = docs.differ(docs.outcome(env.drv.call("read", fmt, src, data)), got)
            if not m:
                return None
            ms.append("read as %s, or opened by name: %s" % (fmt, m))
        return ms[0]
