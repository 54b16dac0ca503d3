"""ISO 6937 as libsub supports it, written down independently: the single-byte repertoire by code chart row, and the
letters each non-spacing diacritical combines with; composed letters come from Unicode normalisation."""
import unicodedata

SINGLE = {0x0a: "\n"}
for c in range(0x20, 0x7f):
    SINGLE[c] = chr(c)
_ROWS = {
    0xa0: [None, "\u00a1", "\u00a2", "\u00a3", "$", "\u00a5", None, "\u00a7", "\u00a4", "\u2018", "\u201c", "\u00ab", "\u2190", "\u2191", "\u2192", "\u2193"],
    0xb0: ["\u00b0", "\u00b1", "\u00b2", "\u00b3", "\u00d7", "\u00b5", "\u00b6", "\u00b7", "\u00f7", "\u2019", "\u201d", "\u00bb", "\u00bc", "\u00bd", "\u00be", "\u00bf"],
    0xd0: ["\u2015", "\u00b9", "\u00ae", "\u00a9", "\u2122", "\u266a", "\u00ac", "\u00a6", None, None, None, None, "\u215b", "\u215c", "\u215d", "\u215e"],
    0xe0: ["\u2126", "\u00c6", "\u0110", "\u00aa", "\u0126", None, "\u0132", "\u013f", "\u0141", "\u00d8", "\u0152", "\u00ba", "\u00de", "\u0166", "\u014a", "\u0149"],
    0xf0: ["\u0138", "\u00e6", "\u0111", "\u00f0", "\u0127", "\u0131", "\u0133", "\u0140", "\u0142", "\u00f8", "\u0153", "\u00df", "\u00fe", "\u0167", "\u014b", "\u00ad"],
}
for base, row in _ROWS.items():
    for i, c in enumerate(row):
        if c is not None:
            SINGLE[base + i] = c

# diacritical code -> (combining character, letters)
DIACRITICALS = {
    0xc1: ("\u0300", "AEIOUaeiou"),
    0xc2: ("\u0301", "ACEILNORSUYZacegilnorsuyz"),
    0xc3: ("\u0302", "ACEGHIJOSUWYaceghijosuwy"),
    0xc4: ("\u0303", "AINOUainou"),
    0xc5: ("\u0304", "AEIOUaeiou"),
    0xc6: ("\u0306", "AGUagu"),
    0xc7: ("\u0307", "CEGIZcegz"),
    0xc8: ("\u0308", "AEIOUYaeiouy"),
    0xca: ("\u030a", "AUau"),
    0xcb: ("\u0327", "CGKLNRSTcklnrst"),
    0xcd: ("\u030b", "OUou"),
    0xce: ("\u0328", "AEIUaeiu"),
    0xcf: ("\u030c", "CDELNRSTZcdelnrstz"),
}
COMPOSED = {}
for code, (comb, letters) in DIACRITICALS.items():
    for l in letters:
        c = unicodedata.normalize("NFC", l + comb)
        assert len(c) == 1, (l, comb)
        COMPOSED[(code, ord(l))] = c

COMBINING = {c for c, _ in DIACRITICALS.values()} | {"\u032b", "\u0328"}
REPERTOIRE = sorted(set(SINGLE.values()) | set(COMPOSED.values()))
PRINTABLE = [c for c in REPERTOIRE if c != "\n"]
LOOKALIKE = {"\u201e": "\u201c", "\u2013": "\u2015", "\u2014": "\u2015", "\u2010": "-", "\u2011": "-", "\u2012": "-", "\u2032": "'"}
DIA_CODES = sorted(DIACRITICALS)
UNDEFINED = [b for b in range(1, 256) if b not in SINGLE and b not in DIACRITICALS]


def decode(data):
    out, pending = "", None
    for b in data:
        if b in DIACRITICALS:
            pending = b
        elif pending is not None:
            out += COMPOSED.get((pending, b), "")
            pending = None
        else:
            out += SINGLE.get(b, "")
    return out


def representable(text):
    """what should come back from encoding and decoding text"""
    ok = set(REPERTOIRE)
    return "".join(LOOKALIKE.get(c, c if c in ok else "") for c in text)
