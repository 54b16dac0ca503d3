import unicodedata
from pbt.core import Check
from pbt import iso

# characters the code cannot represent at all
FOREIGN = list("\u4f60\u597d\u0416\u03a9\u03b1\u05d0\u0627\u20ac\u2026\u2022\u00a0\u0219\u1e9e\u01c5") + ["\U0001f600", "\t", "\r", "\x7f", "\x1b", "\u0080", "\u008a", "\u008f", "\u200b", "\ufeff", "\x01", "\x07", "\ufffd"]
BASES = {"\u0308": 0, }


def text_back(text):
    """-> the set-free expected decoding, or None where several answers are right"""
    return iso.representable(text)


class CHECK(Check):
    id = "C09"
    rule = ("sequences of one to six conversions in one process: byte strings (repertoire, diacritical pairs, undefined bytes, impossible pairs) to decode "
            "and texts (repertoire, look-alikes, unrepresentable and combining characters) to encode and decode back, plus every single byte, every "
            "pair of a diacritical and a byte, and every character below U+3000; non-trivial: a diacritical or something undefined next to an ordinary character")
    quick = 120000
    thorough = 3000000
    restart_every = 40
    assumptions = ["byte strings do not contain NUL (the interface ends the text there)",
                   "the meaning of an undefined byte directly after a diacritical is not judged"]

    def fixed(self, tier):
        out = []
        every = []
        for b in range(1, 256):
            every.append(["d", [0x41, b, 0x42] if b not in iso.DIACRITICALS else [0x41, b]])
        out.append({"ops": every})
        for d in iso.DIA_CODES:
            out.append({"ops": [["d", [0x41, d, b, 0x42]] for b in range(1, 256) if b not in iso.UNDEFINED or 0x80 <= b < 0xa0 or b < 0x20]})
        for lo in range(1, 0x3000, 0x100):
            out.append({"ops": [["e", "A" + chr(c) + "b"] for c in range(lo, lo + 0x100) if not 0xd800 <= c < 0xe000]})
        out.append({"ops": [["e", "".join(iso.REPERTOIRE)], ["d", sorted(iso.SINGLE)]]})
        return out

    def g_bytes(self, s):
        def unit(s):
            k = s.n(10)
            if k < 4:
                return [s.pick([0x41, 0x65, 0x20, 0x7e, 0x2d, 0xff, 0xa1, 0xd5])]
            if k < 5:
                return [s.pick(sorted(iso.SINGLE))]
            if k < 7:
                d = s.pick(iso.DIA_CODES)
                return [d, ord(s.pick(iso.DIACRITICALS[d][1]))]
            if k == 7:
                return [s.pick(iso.DIA_CODES), s.pick(sorted(iso.SINGLE))]
            if k == 8:
                return [s.pick(iso.UNDEFINED)]
            return [s.pick(iso.DIA_CODES)]
        out = []
        for u in s.list(unit, 0, 12, 0.8):
            # an undefined byte directly after a diacritical is ambiguous: keep them apart
            if out and out[-1] in iso.DIACRITICALS and u[0] in iso.UNDEFINED and not (len(out) > 1 and out[-2] in iso.DIACRITICALS and False):
                out.append(0x41)
            out += u
        return out

    def g_text(self, s):
        def ch(s):
            k = s.n(10)
            if k < 3:
                return s.pick("aeE x-u")
            if k < 6:
                return s.pick(iso.REPERTOIRE)
            if k == 6:
                return s.pick(sorted(iso.LOOKALIKE))
            if k == 7:
                return s.pick(FOREIGN)
            if k == 8:
                return chr(s.pick([s.int(0x80, 0x2ff), s.int(0x2000, 0x26ff), s.int(0x300, 0xd7ff), s.int(0x10000, 0x1ffff)]))
            return s.pick(sorted(iso.COMBINING))
        return "".join(s.list(ch, 0, 14, 0.85))

    def gen(self, s):
        ops = s.list(lambda s: ["d", self.g_bytes(s)] if s.flag() else ["e", self.g_text(s)], 1, 6, 0.6)
        return {"ops": ops}

    def expected_texts(self, text):
        """all acceptable results of encoding and decoding text: a combining mark may be left out or combined with the letter before it"""
        if not any(c in iso.COMBINING or unicodedata.combining(c) for c in text):
            return {iso.representable(text)}
        a = iso.representable("".join(c for c in text if not (c in iso.COMBINING or unicodedata.combining(c))))
        b = iso.representable(unicodedata.normalize("NFC", text))
        return {a, b}

    def run(self, c, env):
        toks = [str(len(c["ops"]))]
        for k, v in c["ops"]:
            toks += [k, bytes(v) if k == "d" else " ".join(str(ord(x)) for x in v)]
        r = env.drv.call("iso", *toks)["ok"]
        again = [str(len(c["ops"]))]
        for (k, v), o in zip(c["ops"], r):
            if isinstance(o, dict):
                return "converting %r failed: %r" % (v, o)
            again += ["d", (bytes(v) if k == "d" else o.encode("latin1"))]
        back = env.drv.call("iso", *again)["ok"]
        for (k, v), o, o2 in zip(c["ops"], r, back):
            if isinstance(o2, dict):
                return "decoding %r again failed: %r" % (v, o2)
            if k == "d":
                want = iso.decode(v)
                got = o.encode("latin1").decode("utf8", "backslashreplace")
                self.label("decode")
                odd = any(b in iso.DIACRITICALS or b in iso.UNDEFINED for b in v)
                self.label("decode with diacriticals or undefined bytes", odd)
                self.nontrivial(odd and len(v) > 2)
                if got != want:
                    return "bytes %r decode to %r, expected %r" % (bytes(v), got, want)
                if o2 != o:
                    return "bytes %r decode to %r the first time and %r the second" % (bytes(v), o, o2)
            else:
                want = self.expected_texts(v)
                got = o2.encode("latin1").decode("utf8", "backslashreplace")
                self.label("encode")
                self.label("encode with unrepresentable characters", want != {v})
                self.nontrivial(len(v) > 2 and any(ord(x) > 126 for x in v))
                if "\0" in o:
                    return "text %r encodes to bytes with a NUL: %r" % (v, o)
                if got not in want:
                    return "text %r encodes to %r, which decodes to %r, expected %r" % (v, o.encode("latin1"), got, sorted(want))
        return None
