from pbt.core import Check
from pbt.model import *
from pbt import ssa


class CHECK(Check):
    id = "C03"
    rule = ("scripts as for C02, with alignments by style and by tag, margins of style and event written with one to four digits, resolutions, several rows and \\pos; "
            "non-trivial: a Dialogue with text and a margin, several rows, an alignment other than the default, or \\pos")
    quick = 160000
    thorough = 3000000
    assumptions = ["\\an comes before the text of its event and is not combined with \\pos; \\fs is not combined with several rows",
                   "positions are compared to within 2e-5 of the screen, or of the height of the event if that is larger (single precision)"]

    def gen(self, s):
        return ssa.g_doc(s, True)

    def run(self, doc, env):
        data = ssa.render(doc).encode("utf8")
        exp = [r for e in ssa.expected(doc) for r in e]
        self.label("several rows", any(r["row"] for r in exp))
        for r in exp:
            self.label("at %d %d" % (r["hp"][1], r["vp"][3]))
        self.label("margins", any(r["hp"][0] for r in exp))
        self.nontrivial(any(r["row"] or r["hp"][0] or r["vp"][0] or r["hp"][1] != HCENTRE or r["vp"][3] != BOTTOM for r in exp))
        r = read(env, "ssa", "file" if len(data) % 3 == 0 else "string", data)
        m = expect_ok(r)
        if not m:
            act = [actual(j) for j in r["ok"]["subs"]]
            act = [a for a in act if a["text"]]
            # positions only: compare them character by character so that the cutting into runs does not matter
            def spread(rs):
                return [(ch, x["hp"], x["vp"], x.get("mag")) for x in rs for ch in x["text"]]
            for n, (e, a) in enumerate(zip(spread(exp), spread(act))):
                if e[0] != a[0]:
                    m = "text differs at character %d: %r, expected %r" % (n, a[0], e[0])
                    break
                big = max(1.0, abs(e[1][0]), abs(e[2][0]), e[3])
                if not all(near(x, y, 2e-5 * big) for x, y in zip(e[1], a[1])):
                    m = "horizontal position of character %d (%r) is %r, expected %r" % (n, e[0], a[1], e[1])
                    break
                if not all(near(x, y, 2e-5 * big) for x, y in zip(e[2], a[2])):
                    m = "vertical position of character %d (%r) is %r, expected %r" % (n, e[0], a[2], e[2])
                    break
            if not m and len(spread(exp)) != len(spread(act)):
                m = "%d characters read, expected %d" % (len(spread(act)), len(spread(exp)))
        return m and "%s\ndocument: %r" % (m, data)
