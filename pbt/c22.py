import os, subprocess
from fractions import Fraction as F
from pbt.core import Check, f32, txt
from pbt import docs, wr

REFS = ["top", "centre", "bottom", "top of subtitle"]


def instant(js):
    m = wr.TIME_RE.match(js[4])
    if m:
        h, mi, s, f, n, d = map(int, m.groups())
        return (0, (h * 60 + mi) * 60 + s + F(f) * d / n)
    # without a rate: by hours, minutes, seconds and frames
    h, mi, s, f = map(int, js[4].split(":"))
    return (1, h, mi, s, f)


def usual(ok):
    """damage can make times negative or enormous: their order is not specified"""
    return all(len(x) < 8 and not x.startswith("-") for r in ok["subs"] for k in ("from", "to") for x in r[k][4].split(" ")[0].split(":"))


def same_row(a, b):
    if a[0] is not None and a[3] is not None and b[0] is not None and b[3] is not None:
        return a[0] == b[0] and a[3] == b[3] and a[1] == b[1]
    if None not in (a[1], a[2], a[3], b[1], b[2], b[3]):
        return a[1:] == b[1:]
    return None not in (a[1], a[3], b[1], b[3]) and a[1] == b[1] and a[3] == b[3]


def expected_dump(ok):
    """the text of the dump of what was read, as bytes"""
    out = []
    for k in sorted(ok["meta"]):
        out.append("%s: %s" % (k, ok["meta"][k]))
    subs = []
    for r in sorted(ok["subs"], key=lambda r: instant(r["from"])):
        key = (instant(r["from"]), instant(r["to"]), r["fup"], r["fdn"])
        if not subs or subs[-1][0] != key:
            subs.append((key, r, []))
        lines = subs[-1][2]
        if lines and same_row(lines[-1][0]["vp"], r["vp"]):
            lines[-1].append(r)
        else:
            lines.append([r])
    for n, (_, r, lines) in enumerate(subs):
        out.append("Subtitle %d at %s -> %s" % (n, r["from"][4], r["to"][4]))
        for l in lines:
            prop, line, of, ref = l[0]["vp"]
            t = "\t"
            if prop is not None:
                t += "%g of screen" % f32(prop)
            elif line is not None and of is not None:
                t += "%d lines of %d" % (line, of)
            if ref is not None:
                t += " from " + REFS[ref]
            t += "\t"
            i = u = False
            for b in l:
                ni, nu = b["biu"][1] == "I", b["biu"][2] == "U"
                if ni != i:
                    t += "<i>" if ni else "</i>"
                if nu != u:
                    t += "<u>" if nu else "</u>"
                i, u = ni, nu
                t += b["text"]
            out.append(t + ("</i>" if i else "") + ("</u>" if u else ""))
    return "".join(x + "\n" for x in out).encode("latin1")


class CHECK(Check):
    id = "C22"
    rule = ("documents of all formats dumped in process, and the dumpsubs command run on files that are well formed, damaged, cut short, missing, directories or of another kind, and with wrong "
            "command lines; output is compared with an independent rendering of what the reader reports; non-trivial: at least two subtitles or rows dumped, or a run that must fail")
    targets = ["driver", "dumpsubs"]
    quick = 60000
    thorough = 800000
    assumptions = ["proportions are shown with six significant digits"]

    def fixed(self, tier):
        return [{"k": "many", "n": n, "tool": t} for n in (300, 2000, 70000) + ((200000,) if tier == "thorough" else ()) for t in (0, 1)]

    def run_many(self, c, env):
        """very many subtitles"""
        n = c["n"]
        data = "".join("%d\n%02d:%02d:%02d,%03d --> %02d:%02d:%02d,999\n%s\n\n" % (k, k // 3600, k // 60 % 60, k % 60, k % 997, k // 3600, k // 60 % 60, k % 60, ["x", "<i>y</i>", "a\n<u>b</u>"][k % 3]) for k in range(n)).encode()
        a = env.drv.call("read", "srt", "string", data)
        self.nontrivial()
        if c["tool"]:
            with open(os.path.join(env.scratch, "many.srt"), "wb") as f:
                f.write(data)
            r = self.tool(env, ["many.srt"])
            if r[0]:
                return "dumpsubs of %d subtitles exits with status %d" % (n, r[0])
            got = r[1]
        else:
            got = env.drv.call("dump", "srt", "string", data)["ok"].encode("latin1")
        return self.same(expected_dump(a["ok"]), got, "dump of %d subtitles" % n)

    def gen(self, s):
        if not s.flag(1, 6):
            d = docs.gen(s)
            return {"k": "dump", "d": d, "edits": docs.g_edits(s) if s.flag(1, 4) else [], "src": s.pick(docs.SOURCES[d["fmt"]])}
        k = s.n(10)
        if k < 7:
            fmt = s.pick(["srt", "stltext", "stlbin"])
            return {"k": "tool", "d": docs.gen(s, fmt), "edits": docs.g_edits(s) if s.flag() else [], "cut": s.n(1001) if s.flag(1, 5) else None,
                    "name": s.pick(["a", "a b", "x.y", "\u00e9"]) + {"srt": s.pick([".srt", ".SRT", ".Srt"])}.get(fmt, s.pick([".stl", ".STL"])), "dash": s.flag(1, 6)}
        if k == 7:
            return {"k": "bad", "how": s.pick(["missing.srt", "missing.stl", "missing.txt", "missing"])}
        if k == 8:
            return {"k": "bad", "how": s.pick(["dir", "dir.srt", "dir.stl", "file.txt", "file", "file.ass", "full"])}
        return {"k": "usage", "args": s.pick([[], ["a.srt", "b.srt"], ["a.srt", "a.srt"], ["--bogus"], ["-x"], ["--bogus", "a.srt"], ["-x", "a.srt"], ["--help"], ["-h"], ["-h", "a.srt"], ["--help", "a", "b"],
                                              [""], ["a.srt", ""], ["--", "a.srt", "b.srt"], ["--"], ["--help=x"]])}

    def tool(self, env, args, stdout=subprocess.PIPE):
        p = subprocess.run([env.exes["dumpsubs"]] + args, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE, cwd=env.scratch, timeout=60,
                           env=dict(os.environ, LC_ALL="C", ASAN_OPTIONS="detect_leaks=0:exitcode=86", UBSAN_OPTIONS="halt_on_error=1:exitcode=86"))
        return p.returncode, p.stdout or b"", p.stderr

    def fails(self, r, what):
        rc, out, err = r
        if rc < 0:
            return "dumpsubs %s is killed by signal %d: %r" % (what, -rc, err[-300:])
        if rc in (0, 86):
            return "dumpsubs %s exits with status %d: %r %r" % (what, rc, out[:300], err[-500:])
        if not err.strip():
            return "dumpsubs %s fails without a message" % what
        return None

    def run(self, c, env):
        self.label(c["k"])
        return getattr(self, "run_" + c["k"])(c, env)

    def run_dump(self, c, env):
        fmt = c["d"]["fmt"]
        data = docs.edit(docs.render(c["d"]), c["edits"])
        a = env.drv.call("read", fmt, c["src"], data)
        b = env.drv.call("dump", fmt, c["src"], data)
        self.label(fmt)
        if "err" in a or "err" in b:
            return None if a.get("err") == b.get("err") else "reading gives %s, dumping %s" % (a.get("err"), b.get("err"))
        if any(isinstance(r["vp"][0], str) for r in a["ok"]["subs"]):
            # a resolution of 0, from a damaged script, gives positions that are not numbers
            self.label("position not finite")
            return None
        if not usual(a["ok"]):
            self.label("absurd times")
            return None
        want, got = expected_dump(a["ok"]), b["ok"].encode("latin1")
        self.nontrivial(want.count(b"\n\t") > 1)
        return self.same(want, got, "dump of %r" % data[:1500])

    def same(self, want, got, what):
        if want == got:
            return None
        x, y = want.split(b"\n"), got.split(b"\n")
        for n in range(max(len(x), len(y))):
            p, q = (x[n] if n < len(x) else None), (y[n] if n < len(y) else None)
            if p != q:
                return "line %d is %r, expected %r\n%s" % (n, q, p, what)

    def run_tool(self, c, env):
        fmt = c["d"]["fmt"]
        data = docs.edit(docs.render(c["d"]), c["edits"])
        if c["cut"] is not None:
            data = data[:len(data) * c["cut"] // 1000]
        path = os.path.join(env.scratch, c["name"])
        with open(path, "wb") as f:
            f.write(data)
        try:
            a = env.drv.call("factory", path)
            r = self.tool(env, (["--"] if c["dash"] else []) + [c["name"]])
        finally:
            os.unlink(path)
        if "err" in a:
            self.nontrivial()
            self.label("unreadable")
            return self.fails(r, "of %s with %r" % (c["name"], data[:1000]))
        if not usual(a["ok"]):
            self.label("absurd times")
            return None
        if r[0] != 0:
            return "dumpsubs of a readable file exits with status %d: %r\n%r" % (r[0], r[2][-500:], data[:1500])
        want = expected_dump(a["ok"])
        self.nontrivial(want.count(b"\n\t") > 1)
        # warnings about unrecognised lines may come first
        got = r[1]
        if fmt != "srt" and got != want and got.endswith(want):
            self.label("warnings")
            return None
        return self.same(want, got, "dumpsubs of %r" % data[:1500])

    def run_bad(self, c, env):
        self.nontrivial()
        how = c["how"]
        self.label(how)
        p = os.path.join(env.scratch, how)
        if how == "full":
            p = os.path.join(env.scratch, "full.srt")
            with open(p, "w") as f:
                f.write("1\n00:00:01,000 --> 00:00:02,000\nHello\n\n" * 300)
            with open("/dev/full", "w") as o:
                r = self.tool(env, ["full.srt"], o)
            return self.fails(r, "with its output on a full device")
        if how.startswith("dir"):
            os.makedirs(p, exist_ok=True)
        elif how.startswith("file"):
            with open(p, "w") as f:
                f.write("1\n00:00:01,000 --> 00:00:02,000\nx\n")
        r = self.tool(env, [how])
        return self.fails(r, "of " + how)

    def run_usage(self, c, env):
        self.nontrivial()
        for n in ("a.srt", "b.srt"):
            with open(os.path.join(env.scratch, n), "w") as f:
                f.write("1\n00:00:01,000 --> 00:00:02,000\nx\n")
        a = c["args"]
        r = self.tool(env, a)
        if a and a[0] in ("--help", "-h"):
            return None if r[0] == 0 and (r[1] + r[2]).strip() else "dumpsubs %r exits with status %d: %r" % (a, r[0], r[2])
        return self.fails(r, "with arguments %r" % a)
