from pbt.core import Check
from pbt import docs
from pbt.model import expect_ok, compare_runs

LENGTHS = [253, 254, 255, 256, 257, 300, 510, 511, 512, 1022, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65536]


class CHECK(Check):
    id = "C13"
    rule = ("documents of all five formats, a third of them damaged by random edits, with words stretched to lengths around the usual buffer sizes; each is read "
            "from every source, and (text formats) with CRLF, with a byte order mark, and with and without the last terminator; all outcomes, including errors, "
            "must agree; non-trivial: a stretched line, a damaged document, or at least two runs read")
    quick = 60000
    thorough = 500000
    assumptions = ["damaged documents contain no carriage return of their own when line endings are varied", "undamaged documents are also compared with the model of their format"]

    def gen(self, s):
        d = docs.gen(s)
        c = {"d": d, "edits": [], "stretch": []}
        if s.flag(1, 3):
            c["edits"] = docs.g_edits(s)
        if s.flag(1, 2) and d["fmt"] != "stlbin":
            c["stretch"] = [[s.n(1001), s.pick(LENGTHS) + s.int(-2, 2)] for _ in range(s.int(1, 3))]
        return c

    def data(self, c):
        b = docs.render(c["d"])
        b = docs.edit(b, c["edits"])
        for at, n in c["stretch"]:
            # lengthen a line to about n bytes, in a word where there is one
            L = b.split(b"\n")
            x = at * len(L) // 1001
            if c["d"]["fmt"] == "srt":
                # the SubRip reader copies the whole line for each of its characters
                n = min(n, 8194)
            i = L[x].rfind(b"e") if b"-->" not in L[x] and b"color" not in L[x] else -1
            if i >= 0 and n > len(L[x]):
                L[x] = L[x][:i] + b"e" * (n - len(L[x])) + L[x][i:]
            b = b"\n".join(L)
        return b

    def run(self, c, env):
        fmt = c["d"]["fmt"]
        data = self.data(c)
        base = docs.outcome(env.drv.call("read", fmt, docs.SOURCES[fmt][0], data))
        self.label(fmt + (" damaged" if c["edits"] else ""))
        self.label("rejected", base[0] == "err")
        longest = max(len(x) for x in data.split(b"\n"))
        self.label("line over 255 bytes", longest > 255 and fmt != "stlbin")
        self.nontrivial(bool(c["edits"]) or longest > 255 or (base[0] == "ok" and len(base[1]) > 1))
        variants = [(src, "as it is", data) for src in docs.SOURCES[fmt][1:]]
        if fmt != "stlbin":
            forms = []
            if b"\r" not in data:
                forms.append(("with CRLF", data.replace(b"\n", b"\r\n")))
            # removing or completing a line that is empty would change how many blank lines there are
            if data.endswith(b"\n"):
                if not data.endswith((b"\n\n", b"\n\r\n")) and data not in (b"\n", b"\r\n") and not data.endswith(b"\r\n"):
                    forms.append(("without the last terminator", data[:-1]))
            elif data:
                forms.append(("with a last terminator", data + b"\n"))
                if b"\r" not in data:
                    forms.append(("with CRLF and a last terminator", data.replace(b"\n", b"\r\n") + b"\r\n"))
            if fmt in docs.BOM_OK and data:
                if data.startswith(b"\xef\xbb\xbf"):
                    forms.append(("without a byte order mark", data[3:]))
                else:
                    forms.append(("with a byte order mark", b"\xef\xbb\xbf" + data))
            for n, (what, x) in enumerate(forms):
                variants.append((docs.SOURCES[fmt][(len(data) + n) % len(docs.SOURCES[fmt])], what, x))
        for src, what, x in variants:
            if what == "without a byte order mark" and (x.startswith(b"\xef\xbb\xbf") or not x):
                continue
            o = docs.outcome(env.drv.call("read", fmt, src, x))
            m = docs.differ(base, o)
            if m:
                return "%s from %s, or %s from %s: %s\ndocument: %r" % (fmt, docs.SOURCES[fmt][0], what, src, m, data[:3000])
        if not c["edits"] and not c["stretch"]:
            if base[0] == "err":
                return "well-formed %s rejected: %s\ndocument: %r" % (fmt, docs.say(base), data[:3000])
        return None
