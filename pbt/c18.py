import os
from pbt.core import Check, txt
from pbt import wr

BIG = 1 << 40
NAMES = ["a b.stl", "100%1.stl", "\u00e9t\u00e9.stl", "no extension", ".stl", "x.STL", "x" * 251 + ".stl", "o.stl.", "-", "a\nb", "\\", "o.srt", "'\"", "\u4f60" * 60, "~", "$HOME", "*"]


def g_len(s, lim):
    return s.pick([0, lim, lim - 1, lim + 1, lim + 2, 2 * lim, s.n(lim + 1), 1000])


def make(n):
    return ("abcdefghij" * (n // 10 + 1))[:n]


class CHECK(Check):
    id = "C18"
    rule = ("writes with every header field at, below and above its limit, dates and country codes of every length, revisions to 150, too much text for the "
            "format, over absent, shorter and longer previous contents, under names of every kind, through symbolic links, into missing directories, onto a directory, under names that cannot be, onto a full device, and with the "
            "file size limited to any number of bytes below, at and above what is needed; non-trivial: anything that must fail, or previous contents longer "
            "than the file")
    quick = 40000
    thorough = 1200000
    assumptions = ["failures of the device are those of /dev/full and of a file size limit", "a subtitle has at most 241 blocks and a file at most 99999"]

    def fixed(self, tier):
        out = []
        base = {"subs": [], "before": "old", "mode": "plain", "lim": 0}
        for k in wr.FIELDS32:
            for n in (31, 32, 33, 34):
                out.append(dict(base, head=dict(wr.DEFAULT_HEAD, **{k: make(n)})))
        for k in ("cd", "rd", "co"):
            for n in range(0, 9):
                out.append(dict(base, head=dict(wr.DEFAULT_HEAD, **{k: make(n)})))
        for n in (98, 99, 100, 101, 1000):
            out.append(dict(base, head=dict(wr.DEFAULT_HEAD, rev=n)))
        # the longest text there is room for, and more
        for n in (241 * 112 - 2, 241 * 112 - 1, 241 * 112, 241 * 112 + 1, 254 * 112, 255 * 112, 256 * 112, 257 * 112, 60000):
            out.append(dict(base, head=dict(wr.DEFAULT_HEAD), length=n))
        if tier == "thorough":
            out += [dict(base, head=dict(wr.DEFAULT_HEAD), many=n) for n in (99999, 100000, 100001)]
        else:
            out.append(dict(base, head=dict(wr.DEFAULT_HEAD), many=100000))
        # every limit on a small file
        one = [{"from": ["m", 0, 0, 1, 0, 1000, 1], "to": ["m", 0, 0, 2, 0, 1000, 1],
                "lines": [{"hp": [0.0, 1], "vp": [0.5, None, None, 0], "blocks": [{"text": "x", "i": 0, "u": 0}]}]}]
        for n in range(0, 1200, 1 if tier == "thorough" else 13):
            out.append(dict(base, head=dict(wr.DEFAULT_HEAD), subs=one, mode="limit", lim=n))
        return out

    def gen(self, s):
        h = wr.g_head(s)
        if s.flag():
            for _ in range(s.int(1, 2)):
                k = s.pick(wr.FIELDS32 + ["cd", "rd", "co", "rev"])
                if k == "rev":
                    h["rev"] = s.int(95, 150)
                else:
                    h[k] = make(g_len(s, 32 if k in wr.FIELDS32 else 6 if k != "co" else 3))
        subs = wr.g_subs(s, 0, 5)
        if s.flag(1, 15) and subs:
            subs[s.n(len(subs))]["to"] = ["n", 0, 0, 1, 3, 0, 1]
        return {"head": h, "subs": subs, "before": s.pick([None, "", "old", "x" * 1023, "y" * 5000, "z" * 40000]),
                "mode": s.pick(["plain", "limit", "limit", "plain", "missing", "directory", "full", "underfile"]) if s.flag(4, 5) else
                s.pick(["link", "dangling", "loop", "toolong", "unnamed", "name", "name"]), "name": s.pick(NAMES),
                "lim": s.pick([s.n(3000), 0, 1, 1023, 1024, 1025, 1151, 1152, 1153, -1, -2, -128, -129])}

    def run(self, c, env):
        self.made = None
        try:
            return self.write(c, env)
        finally:
            if self.made and os.path.lexists(self.made):
                os.unlink(self.made)

    def write(self, c, env):
        h, subs = c["head"], c["subs"]
        t = lambda n: ["m", 0, 0, n, 0, 1000, 1]
        plain = lambda text: {"from": t(1), "to": t(2), "lines": [{"hp": [0.0, 1], "vp": [0.5, None, None, 0], "blocks": [{"text": text, "i": 0, "u": 0}]}]}
        if "length" in c:
            subs = [plain("x" * c["length"])]
        if "many" in c:
            subs = [plain("x")] * c["many"]
        good = (all(len(h[k].encode()) <= 32 for k in wr.FIELDS32) and len(h["cd"]) == 6 and len(h["rd"]) == 6 and len(h["co"].encode()) == 3
                and h["rev"] <= 99 and all(x["to"][0] != "n" for x in subs) and c.get("length", 0) <= 241 * 112 - 1 and c.get("many", 0) <= 99999)
        body = wr.sub_tokens(subs)
        d = os.path.join(env.scratch, "w")
        os.makedirs(d, exist_ok=True)
        whole = None
        if good:
            p = os.path.join(d, "fresh.stl")
            if os.path.exists(p):
                os.unlink(p)
            r = env.drv.call("writelim", BIG, *(wr.head_tokens(p, h) + body))
            if "err" in r:
                return "write failed: %s (%s)" % (r["err"], txt(r.get("what", "")))
            whole = open(p, "rb").read()
            if len(whole) < 1024 or (len(whole) - 1024) % 128 or whole[238:243] != b"%05d" % ((len(whole) - 1024) // 128) or whole[243:248] != b"%05d" % len(subs):
                return "the file has %d bytes and says %r blocks and %r subtitles" % (len(whole), whole[238:243], whole[243:248])
            pos = 1024
            n = 0
            while pos < len(whole):
                n += whole[pos + 3] == 0xff
                pos += 128
            if n != len(subs):
                return "the file holds %d subtitles of %d" % (n, len(subs))
        mode, lim = c["mode"], BIG
        p = os.path.join(d, "o.stl")
        if os.path.isdir(p):
            os.rmdir(p)
        elif os.path.lexists(p):
            os.unlink(p)
        before = None
        ok = good
        if mode == "missing":
            p = os.path.join(d, "nowhere", "o.stl")
            ok = False
        elif mode == "underfile":
            open(p, "w").close()
            p = os.path.join(p, "o.stl")
            ok = False
        elif mode == "directory":
            os.mkdir(p)
            ok = False
        elif mode == "full":
            p = "/dev/full"
            ok = False
        elif mode in ("loop", "toolong", "unnamed"):
            if mode == "loop":
                os.symlink("o.stl", p)
            p = {"loop": p, "toolong": os.path.join(d, "x" * 256), "unnamed": ""}[mode]
            ok = False
        else:
            target = p
            if mode == "name":
                target = p = os.path.join(d, c["name"])
            elif mode in ("link", "dangling"):
                target = os.path.join(d, "target")
                os.symlink(target, p)
            self.made = target
            if mode == "dangling":
                pass
            elif c["before"] is not None:
                before = c["before"].encode()
                with open(p, "wb") as f:
                    f.write(before)
            if mode == "limit" and good:
                lim = c["lim"] if c["lim"] >= 0 else len(whole) + c["lim"] + 1
                lim = max(lim, 0)
                ok = lim >= len(whole)
        self.nontrivial(not ok or (before is not None and len(before) > len(whole)))
        self.label("refused" if not good else "%s, %s" % (mode, "succeeds" if ok else "fails"))
        r = env.drv.call("writelim", lim, *(wr.head_tokens(p, h) + body))
        if not ok:
            if "err" not in r:
                return "no error (%s%s)" % (mode, ", limit %d" % lim if mode == "limit" else "")
            if not good and mode in ("plain", "limit", "link", "dangling", "name"):
                now = open(p, "rb").read() if os.path.exists(p) else None
                if now != before:
                    return "the refused write touched the file (%s)" % r["err"]
            return None
        if "err" in r:
            return "write failed: %s (%s)" % (r["err"], txt(r.get("what", "")))
        now = open(p, "rb").read() if os.path.exists(p) else None
        if now != whole:
            return "the file written over %s bytes has %s bytes, expected %d" % (None if before is None else len(before), None if now is None else len(now), len(whole))
        return None
