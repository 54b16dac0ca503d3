from fractions import Fraction as F
from pbt.core import Check, fbits, f32
from pbt.model import txt, near
from pbt.c11 import spec, instant, parts, FAR

RATES = [(24, 1), (25, 1), (1000, 1), (24000, 1001), (30, 1)]


def g_t(s, pool):
    if pool and s.flag():
        b = s.pick(pool)
        if s.flag(2, 3):
            return list(b)
        # the same instant or one unit off, expressed at another rate
        sec, f, r = parts(b)
        q = s.pick(RATES)
        nf = max(0, min(int(F(f) / r * F(*q)) + s.n(2), -(-q[0] // q[1]) - 1))
        if s.flag(1, 6):
            sec += s.pick(FAR)
        return ["r", sec // 3600, sec // 60 % 60, sec % 60, nf, q[0], q[1]]
    if s.flag():
        return ["m", 0, s.n(2), s.edge(0, 59), s.edge(0, 999, 500, 40), 1000, 1]
    q = s.pick(RATES)
    return ["r", 0, s.n(2), s.edge(0, 3), s.edge(0, -(-q[0] // q[1]) - 1, 12), q[0], q[1]]


def g_vp(s):
    k = s.n(6)
    ref = s.n(4)
    if k == 0:
        return [None, None, None, None]
    if k == 1:
        return [None, s.n(3), None, s.pick([None, ref])]
    if k == 2:
        return [None, s.n(4), s.pick([11, 23]), ref]
    if k == 3:
        return [s.pick([0.0, 0.25, 0.5, 1.0]), s.n(3), None, ref]
    return [s.pick([0.0, 0.25, 0.5, 0.125, f32(0.251), f32(0.2504), f32(0.505), f32(0.1250001), -0.25, 0.75]), None, None, s.pick([ref, ref, None])]


def g_style(s):
    st = {"font": s.pick([None, "Arial", "X Y", ""]), "b": s.n(2), "i": s.n(2), "u": s.n(2), "col": [f32(s.n(3) / 2) for _ in range(3)],
          "fsp": s.pick([None, 0.5, 0.25]), "fsq": s.pick([None, 12, 72]), "effect": s.pick([None, 0, 1]), "ecol": s.pick([None, [0.0, 0.5, 1.0]]),
          "hp": [s.pick([0.0, 0.5, -0.25]), s.pick([1, 0, 2])]}
    return st


def opt(v, f=str):
    return "-" if v is None else f(v)


def fb(v):
    return str(fbits(v))


def block_tokens(text, st):
    return [text.encode("utf8"), b"-" if st["font"] is None else b"+" + st["font"].encode("utf8"),
            " ".join([str(int(st["b"])), str(int(st["i"])), str(int(st["u"]))] + [fb(x) for x in st["col"]] +
                     [opt(st["fsp"], fb), opt(st["fsq"]), opt(st["effect"])] + ([fb(x) for x in st["ecol"]] if st["ecol"] else ["-"] * 3))]


def vp_fields(v):
    return [opt(v[0], fb), opt(v[1]), opt(v[2]), opt(v[3])]


def hp_fields(h):
    return [fb(h[0]), str(h[1])]


def raw_tokens(raws):
    out = [str(len(raws))]
    for r in raws:
        t = block_tokens(r["text"], r["st"])
        t[2] += " " + " ".join(hp_fields(r["st"]["hp"]) + vp_fields(r["vp"]) + [spec(r["from"]), spec(r["to"]), opt(r["fup"], spec), opt(r["fdn"], spec)])
        out += t
    return out


def vp_same(a, b):
    """the library's notion of one vertical position, from its documentation: same reference and same proportion, or same row"""
    if a[0] is not None and a[3] is not None and b[0] is not None and b[3] is not None:
        return a[0] == b[0] and a[3] == b[3] and a[1] == b[1]
    if None not in (a[1], a[2], a[3], b[1], b[2], b[3]):
        return a[1:] == b[1:]
    if None not in (a[1], a[3], b[1], b[3]):
        return a[1] == b[1] and a[3] == b[3]
    return False


def opt_same(a, b):
    if a is None or b is None:
        return a is b
    return instant(a) == instant(b)


def group(raws):
    subs = []
    for r in sorted(raws, key=lambda r: instant(r["from"])):
        if subs:
            h = subs[-1]["head"]
            if instant(h["from"]) == instant(r["from"]) and instant(h["to"]) == instant(r["to"]) and opt_same(h["fup"], r["fup"]) and opt_same(h["fdn"], r["fdn"]):
                ln = subs[-1]["lines"][-1]
                if vp_same(ln[0]["vp"], r["vp"]):
                    ln.append(r)
                else:
                    subs[-1]["lines"].append([r])
                continue
        subs.append({"head": r, "lines": [[r]]})
    return subs


def time_is(t, js):
    """the time object itself: same whole seconds, frames and rate"""
    sec, f, rate = parts(t)
    q = (1000, 1) if t[0] == "m" else (t[5], t[6])
    return js[4] == "%02d:%02d:%02d:%d @ %d/%d" % ((sec // 3600, sec // 60 % 60, sec % 60, f) + q)


def opt_time_is(t, js):
    return js is None if t is None else (js is not None and time_is(t, js))


def block_is(r, b):
    st = r["st"]
    return (txt(b["text"]) == r["text"] and (b["font"] is None if st["font"] is None else b["font"] is not None and txt(b["font"]) == st["font"])
            and b["biu"] == ("B" if st["b"] else "b") + ("I" if st["i"] else "i") + ("U" if st["u"] else "u")
            and b["col"] == st["col"] and b["fs"] == [st["fsp"], st["fsq"]] and b["effect"] == st["effect"] and b["ecol"] == st["ecol"])


class CHECK(Check):
    id = "C10"
    rule = ("lists of up to 14 runs (one in sixteen: up to 70) whose times, positions and styles come from small pools (so that equality, ties and interleavings are common) "
            "at several frame rates; non-trivial: at least two runs share a subtitle, and the list is not already sorted or has ties")
    quick = 120000
    thorough = 2400000
    assumptions = ["every time states a frame rate"]

    def gen(self, s):
        pool, vps = [], []
        raws = []
        for n in range(s.int(17, 70) if s.flag(1, 16) else s.int(0, 14) if s.flag(3, 4) else s.int(0, 3)):
            if raws and s.flag(1, 2):
                p = s.pick(raws)
                a, b, fu, fd = p["from"], p["to"], p["fup"], p["fdn"]
                if s.flag(1, 6):
                    fu = g_t(s, pool)
                if s.flag(1, 6):
                    fd = g_t(s, pool)
                if s.flag(1, 6):
                    b = g_t(s, pool)
            else:
                a = g_t(s, pool)
                b = g_t(s, pool)
                fu = g_t(s, pool) if s.flag(1, 8) else None
                fd = g_t(s, pool) if s.flag(1, 8) else None
            pool += [a, b]
            vp = s.pick(vps) if vps and s.flag(2, 3) else g_vp(s)
            vps.append(vp)
            raws.append({"text": s.pick(["t", "", "x\u00e9"]) + str(n), "st": g_style(s), "vp": vp, "from": a, "to": b, "fup": fu, "fdn": fd})
        return {"raws": raws, "kind": s.pick(["vector", "list"])}

    def run(self, c, env):
        raws = c["raws"]
        exp = group(raws)
        keys = [instant(r["from"]) for r in raws]
        self.nontrivial(len(exp) < len(raws) and (keys != sorted(keys) or len(set(keys)) < len(keys)))
        self.label("unsorted", keys != sorted(keys))
        self.label("several lines", any(len(x["lines"]) > 1 for x in exp))
        self.label("several blocks", any(len(l) > 1 for x in exp for l in x["lines"]))
        self.label("rates differ", len({tuple(r["from"][5:]) for r in raws}) > 1)
        r = env.drv.call("collect", c["kind"], *raw_tokens(raws))
        if "err" in r:
            return "collect failed: %r" % r
        got = r["ok"]
        if len(got) != len(exp):
            return "%d subtitles, expected %d: %r" % (len(got), len(exp), [[b["text"] for l in g["lines"] for b in l["blocks"]] for g in got])
        for n, (g, e) in enumerate(zip(got, exp)):
            h = e["head"]
            if not (time_is(h["from"], g["from"]) and time_is(h["to"], g["to"]) and opt_time_is(h["fup"], g["fup"]) and opt_time_is(h["fdn"], g["fdn"])):
                return "subtitle %d has times %r, expected those of run %r" % (n, [g["from"], g["to"], g["fup"], g["fdn"]], h["text"])
            if [[txt(b["text"]) for b in l["blocks"]] for l in g["lines"]] != [[r["text"] for r in l] for l in e["lines"]]:
                return "subtitle %d has rows %r, expected %r" % (n, [[txt(b["text"]) for b in l["blocks"]] for l in g["lines"]], [[r["text"] for r in l] for l in e["lines"]])
            for gl, el in zip(g["lines"], e["lines"]):
                if [gl["vp"][0] and f32(gl["vp"][0])] + gl["vp"][1:] != el[0]["vp"] or gl["hp"] != el[0]["st"]["hp"]:
                    return "subtitle %d: a row's position is %r %r, expected %r %r" % (n, gl["hp"], gl["vp"], el[0]["st"]["hp"], el[0]["vp"])
                for gb, eb in zip(gl["blocks"], el):
                    if not block_is(eb, gb):
                        return "subtitle %d: run %r came out as %r" % (n, eb, gb)
        return None
