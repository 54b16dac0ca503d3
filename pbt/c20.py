import math
from fractions import Fraction as F
from pbt.core import Check, fbits, f32
from pbt.model import near
from pbt.c10 import opt, fb, vp_fields, hp_fields

NAMES = {"vref": ["top", "center", "bottom"], "effect": ["none", "border", "shadow"]}
HEX = "0123456789abcdefABCDEF"


def fraction(v):
    p, line, lines, ref = v
    if ref is None or (p is None and (line is None or lines is None)):
        return 0.0
    x = p if p is not None else line / lines
    return [x, 0.5 + x, 1 - x, x][ref]


class CHECK(Check):
    id = "C20"
    rule = ("lists of up to 6 vertical positions over all references, as proportion, row and number of rows, with any field missing; font sizes with both, one or "
            "no value at many screen heights; horizontal positions around the one-pixel distance; colour strings of every length around 6 and 8 with hexadecimal and other "
            "characters; names of references and effects and strings near them; white space; non-trivial: at least two fully known positions that differ, a specified size, or a colour string")
    quick = 600000
    thorough = 12000000
    assumptions = ["the number of rows and the screen height are positive"]

    def gen(self, s):
        k = s.n(17)
        if k == 16:
            kind = s.pick(["vref", "effect", "space"])
            if kind == "space":
                return {"k": "n", "kind": kind, "t": "".join(s.pick([" ", "\t", "\n", " ", "a", "\r", "\u00a0", "\0", "\v"] if s.flag(1, 3) else " \t\n") for _ in range(s.int(0, 5)))}
            t = s.pick(NAMES["vref"] + NAMES["effect"])
            if s.flag():
                i = s.n(len(t) + 1)
                t = s.pick([t[:i] + t[i + 1:], t[:i] + s.pick([" ", "x", "e", "S"]) + t[i:], t.upper(), t.capitalize(), "", t[:i], "centre", "middle"])
            return {"k": "n", "kind": kind, "t": t}
        k = k % 4
        if k == 0:
            def vp(s):
                return [s.pick([None, None, f32(s.edge(-50, 150, 0, 100, 50, 25) / 100)]), s.pick([None, s.edge(-3, 120, 0, 11, 12)]),
                        s.pick([None, s.edge(1, 99, 12, 23)]), s.pick([None, s.n(4), s.n(4), s.n(4)])]
            return {"k": "v", "v": s.list(vp, 1, 6, 0.8)}
        if k == 1:
            def size(s):
                return [s.pick([None, f32(s.edge(0, 3000, 250, 62, 63) / 1000), f32(s.edge(1, 300) / s.pick([288, 792, 72, 100, 1080]))]), s.pick([None, s.edge(0, 500, 72, 42)])]
            a = size(s)
            b = list(a) if s.flag(1, 3) else size(s)
            return {"k": "f", "a": a, "h": s.edge(1, 2160, 288, 792, 72, 1080, 576), "b": b}
        if k == 2:
            a = [f32(s.edge(-100, 100, 0) / 100), s.n(3)]
            d = s.pick([0.0, 0.0004, -0.0004, 0.00048, 0.00049, 0.00051, 0.0006, -0.0006, 0.001, 0.01, 0.5])
            return {"k": "h", "a": a, "b": [f32(a[0] + d), a[1] if s.flag(2, 3) else s.n(3)]}
        n = s.pick([6, 8, 6, 8, s.n(11)])
        t = "".join(s.pick(HEX) for _ in range(n))
        if s.flag(1, 3) and t:
            i = s.n(len(t))
            t = t[:i] + s.pick([" ", "g", "-", "+", "x", "#", "G", ".", "\n", "\u00e9", "@", "`", "/", ":"]) + t[i + s.n(2):]
        return {"k": "c", "kind": s.pick(["rgb", "rgba"]), "t": t}

    def run(self, c, env):
        self.label(c["k"])
        return getattr(self, "run_" + c["k"])(c, env)

    def run_v(self, c, env):
        v = c["v"]
        r = env.drv.call("vpos", str(len(v)), *[" ".join(vp_fields(x)) for x in v])
        if "err" in r:
            return "failed: %r" % r
        r = r["ok"]
        exp = [fraction(x) for x in v]
        self.nontrivial(len({e for e in exp if e}) > 1)
        self.label("not fully known", any(e == 0 for e in exp))
        for x, e, a in zip(v, exp, r["f"]):
            if not near(e, a, 1e-5):
                return "position %r is %r from the top, expected %r" % (x, a, e)
        n = 0
        for i, x in enumerate(v):
            for j, y in enumerate(v):
                lt, eq = r["c"][n]
                n += 1
                if abs(exp[i] - exp[j]) > 1e-5:
                    if lt != (exp[i] < exp[j]):
                        return "%r < %r is %r" % (x, y, lt)
                    if eq and None not in x[:3]:
                        pass
                elif i == j and lt:
                    return "%r < itself" % (x,)
                if r["f"][i] == r["f"][j] and lt:
                    return "%r < %r though they are at the same distance" % (x, y)
        return None

    def run_f(self, c, env):
        a, h, b = c["a"], c["h"], c["b"]
        f = [opt(a[0], fb), opt(a[1]), str(h), opt(b[0], fb), opt(b[1])]
        r = env.drv.call("fontsize", " ".join(f))
        if "err" in r:
            return "failed: %r" % r
        r = r["ok"]
        spec = a[0] is not None or a[1] is not None
        self.nontrivial(spec)
        if r[0] != spec:
            return "specified() of %r is %r" % (a, r[0])
        if not (near(a[0], r[3], 1e-6) and a[1] == r[4]):
            return "size %r holds %r" % (a, r[3:5])
        if spec:
            p = a[0] if a[0] is not None else a[1] / h
            if not near(p, r[1], 1e-5 * max(1, p)):
                return "size %r is %r of a screen of %d points, expected %r" % (a, r[1], h, p)
            q = a[1] if a[1] is not None else a[0] * h
            if abs(q - r[2]) >= 1:
                return "size %r is %r points on a screen of %d, expected %r" % (a, r[2], h, q)
            if abs(q - round(q)) < 1e-4 and r[2] != round(q):
                return "size %r is %r points on a screen of %d, expected %r" % (a, r[2], h, round(q))
            if a[1] is not None:
                if r[8] != a[1]:
                    return "%d points becomes %r when converted to a proportion of %d points and back" % (a[1], r[8], h)
            elif abs(q - round(q)) < 1e-4 and not near(r[8], a[0], 1e-5 * max(1, a[0])):
                return "proportion %r becomes %r when converted to points on a screen of %d and back" % (a[0], r[8], h)
        same = a == b
        self.label("sizes equal", same)
        if r[5] != same or r[6] != same or r[7] is not True:
            return "%r == %r is %r (and %r the other way)" % (a, b, r[5], r[6])
        return None

    def run_h(self, c, env):
        a, b = c["a"], c["b"]
        r = env.drv.call("hpos", " ".join(hp_fields(a)), " ".join(hp_fields(b)))["ok"]
        d = abs(a[0] - b[0])
        self.nontrivial(a[1] == b[1])
        if r[2] is not True or r[0] != r[1]:
            return "equality of %r and %r is not reflexive or not symmetric: %r" % (a, b, r)
        if abs(d - 1 / 1998) < 2e-6:
            return None
        same = a[1] == b[1] and d < 1 / 1998
        self.label("horizontal equal", same)
        if r[0] != same:
            return "%r == %r is %r" % (a, b, r[0])
        return None

    def run_n(self, c, env):
        k, t = c["kind"], c["t"]
        self.nontrivial()
        r = env.drv.call("names", k, t)["ok"]
        if k == "space":
            exp = not t.strip(" \t\n")
        elif t in NAMES[k]:
            exp = {"top": 0, "center": 1, "bottom": 2, "none": None, "border": 0, "shadow": 1}[t]
        else:
            return None if r == {"err": "XMLError"} else "%s %r is %r, not refused" % (k, t, r)
        return None if r == exp and type(r) == type(exp) else "%s %r is %r, expected %r" % (k, t, r, exp)

    def run_c(self, c, env):
        t = c["t"]
        n = 6 if c["kind"] == "rgb" else 8
        good = len(t) == n and all(x in HEX for x in t)
        self.nontrivial()
        self.label("good colour", good)
        r = env.drv.call("colour", c["kind"], t)["ok"]
        if good:
            exp = [int(t[i:i + 2], 16) / 255 for i in (0, 2, 4)]
            if not isinstance(r, list) or not all(near(x, y, 1e-6) for x, y in zip(exp, r)):
                return "%s colour %r is %r, expected %r" % (c["kind"], t, r, exp)
        elif isinstance(r, list):
            return "%s colour %r is accepted, as %r" % (c["kind"], t, r)
        return None
