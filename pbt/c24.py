"""Equality of collected subtitles, lines and runs."""
from pbt.core import Check, f32
from pbt import wr
from pbt.c10 import g_style, g_t, vp_same, opt_same, RATES, opt, vp_fields, hp_fields, block_tokens
from pbt.c11 import instant, spec

FIELDS = ["text", "font", "b", "i", "u", "col", "fsp", "fsq", "effect", "ecol"]


def g_block(s):
    return dict(g_style(s), text=s.pick(["a", "", "ab", "A", "a ", "\u00e9", "e\u0301", "x" * 40]))


def g_vp(s):
    """known positions only: an unknown one is equal to nothing"""
    if s.flag():
        return [None, s.n(3), s.pick([11, 23, 23]), s.n(4)]
    if s.flag(1, 3):
        return [None, s.n(3), None, s.n(4)]
    return [f32(s.pick([0.0, 0.5, 0.25, 0.5 + 1 / 4096])), s.pick([None, None, 1, 2]), None, s.n(4)]


def g_line(s):
    return {"hp": [f32(s.pick([0.0, 0.25, -0.25, 0.5])), s.n(3)], "vp": g_vp(s), "blocks": [g_block(s) for _ in range(s.int(1, 3))]}


def g_sub(s):
    pool = []
    return {"from": g_t(s, pool), "to": g_t(s, pool), "fup": g_t(s, pool) if s.flag(1, 3) else None, "fdn": g_t(s, pool) if s.flag(1, 3) else None,
            "lines": [g_line(s) for _ in range(s.int(1, 3))]}


def copy(x):
    if isinstance(x, dict):
        return {k: copy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [copy(v) for v in x]
    return x


def change(s, x):
    """one part of the subtitle replaced, by something that may or may not mean the same"""
    x = copy(x)
    k = s.n(12)
    l = x["lines"][s.n(len(x["lines"])) if s.flag() else 0]
    b = l["blocks"][s.n(len(l["blocks"])) if s.flag() else 0]
    if k < 4:
        n = s.pick(["from", "to", "fup", "fdn"])
        x[n] = None if n[0] == "f" and n != "from" and s.flag(1, 4) else g_t(s, [t for t in (x["from"], x["to"], x["fup"], x["fdn"]) if t])
    elif k < 8:
        f = s.pick(FIELDS)
        b[f] = g_block(s)[f]
        if s.flag(1, 3):
            # a colour or size next to the one there was
            f = s.pick(["col", "ecol", "fsp"])
            if f == "fsp" and b[f] is not None:
                b[f] = f32(b[f] * (1 + s.pick([1e-3, 1e-5, 2.0 ** -23])))
            elif f != "fsp" and b[f]:
                n = s.n(3)
                b[f] = [f32(v + s.pick([1e-4, -1e-4, 1e-3, 1e-6, 2.0 ** -23, -2.0 ** -24])) if m == n else v for m, v in enumerate(b[f])]
    elif k == 8:
        l["hp"] = [f32(l["hp"][0] + s.pick([0.0, 0.0004, -0.0004, 0.0006, 0.01])), l["hp"][1] if s.flag() else s.n(3)]
    elif k == 9:
        l["vp"] = g_vp(s)
    elif k == 10:
        if s.flag() and len(l["blocks"]) > 1:
            l["blocks"].pop()
        else:
            l["blocks"].insert(s.n(len(l["blocks"]) + 1), g_block(s))
    elif s.flag() and len(x["lines"]) > 1:
        x["lines"].pop()
    else:
        x["lines"].insert(s.n(len(x["lines"]) + 1), g_line(s))
    return x


def tokens(subs):
    out = [str(len(subs))]
    for x in subs:
        out.append(" ".join([spec(x["from"]), spec(x["to"]), opt(x["fup"], spec), opt(x["fdn"], spec), str(len(x["lines"]))]))
        for l in x["lines"]:
            out.append(" ".join(hp_fields(l["hp"]) + vp_fields(l["vp"]) + [str(len(l["blocks"]))]))
            for b in l["blocks"]:
                out += block_tokens(b["text"], b)
    return out


def block_same(a, b):
    return all((bool(a[k]) == bool(b[k])) if k in "biu" else a[k] == b[k] for k in FIELDS)


def line_same(a, b):
    return (a["hp"][1] == b["hp"][1] and abs(a["hp"][0] - b["hp"][0]) < 1 / 1998 and vp_same(a["vp"], b["vp"])
            and len(a["blocks"]) == len(b["blocks"]) and all(map(block_same, a["blocks"], b["blocks"])))


def sub_same(a, b):
    return (instant(a["from"]) == instant(b["from"]) and instant(a["to"]) == instant(b["to"]) and opt_same(a["fup"], b["fup"]) and opt_same(a["fdn"], b["fdn"])
            and len(a["lines"]) == len(b["lines"]) and all(map(line_same, a["lines"], b["lines"])))


class CHECK(Check):
    id = "C24"
    rule = ("groups of two to four subtitles of one to three lines of one to three runs, each after the first made from an earlier one by at most three changes of one "
            "part, and every pair of them, of their lines and of their runs compared; non-trivial: two of them differ in a single part, or are equal without being identical")
    quick = 100000
    thorough = 2000000
    assumptions = ["every time states a frame rate and every vertical position is known"]

    def gen(self, s):
        subs = [g_sub(s)]
        for _ in range(s.int(1, 3)):
            x = s.pick(subs)
            for _ in range(s.pick([1, 1, 0, 2, 3])):
                x = change(s, x)
            subs.append(x)
        return {"subs": subs}

    def run(self, c, env):
        subs = c["subs"]
        for x in subs:
            for l in x["lines"]:
                # not within the rounding of single precision of the limit
                for y in subs:
                    for m in y["lines"]:
                        if abs(abs(l["hp"][0] - m["hp"][0]) - 1 / 1998) < 2e-6:
                            return None
        r = env.drv.call("equal", *tokens(subs))
        if "err" in r:
            return "comparison failed: %r" % r
        n = 0
        for i, a in enumerate(subs):
            for j, b in enumerate(subs):
                exp = [sub_same(a, b), line_same(a["lines"][0], b["lines"][0]), block_same(a["lines"][0]["blocks"][0], b["lines"][0]["blocks"][0]),
                       a["lines"][0]["blocks"][0]["col"] == b["lines"][0]["blocks"][0]["col"]]
                self.nontrivial(i < j and a != b)
                if i < j:
                    self.label("equal" if exp[0] else "different")
                    self.label("equal but not identical", exp[0] and a != b)
                if r["ok"][n] != exp:
                    return "subtitle, line, run and colour %d == %d is %r, expected %r: %r and %r" % (i, j, r["ok"][n], exp, a, b)
                n += 1
        return None
