"""One line of SSA given to the parser by itself."""
from pbt.core import Check, f32, fbits
from pbt.model import *
from pbt import ssa
from pbt.c10 import raw_tokens, g_t, time_is, opt_time_is, fb

ORDER = ["start", "end"]


class CHECK(Check):
    id = "C25"
    rule = ("a line of random text, row breaks and supported and unsupported tags, with a base style in full, in part or not at all, margins and fades, at random resolutions, "
            "parsed by itself; non-trivial: text and a tag, a break, a style or a margin")
    quick = 100000
    thorough = 2400000
    assumptions = ["the base holds no text; \\an comes before the text and is not combined with \\pos; \\fs is not combined with several rows when positions are compared",
                   "the base's vertical reference is one of the screen's, or not given"]

    def gen(self, s):
        rx, ry = s.pick([384, 640, 1920, 100, 288, 16]), s.pick([288, 480, 1080, 100, 16])
        st = ssa.g_style(s, "S") if s.flag(3, 4) else None
        geometry = s.flag()
        an = s.flag(1, 2)
        text = ssa.g_chunks(s, not geometry or s.flag(1, 2), an, 0 if an else s.pick([0, 0, 1, 2]))
        if geometry:
            for c in text:
                if c[0] == "tags":
                    c[1] = [t for t in c[1] if t[0] != "fs"]
        pool = []
        return {"rx": rx, "ry": ry, "style": st, "text": text, "geometry": geometry, "m": [s.pick([0, s.edge(1, 300)]) for _ in range(3)],
                "novp": s.flag(1, 4), "from": g_t(s, pool), "to": g_t(s, pool), "fup": g_t(s, pool) if s.flag(1, 3) else None,
                "fdn": g_t(s, pool) if s.flag(1, 3) else None, "size": s.pick(["points", "both"]) if s.flag(1, 6) else None, "prim": s.flag(1, 4), "cr": s.flag(1, 6)}

    def run(self, c, env):
        st, (ml, mr, mv) = c["style"], c["m"]
        if c["novp"]:
            mv = 0
        doc = {"rx": c["rx"], "ry": c["ry"], "fmt": ssa.STYLE_FIELDS, "ef": ["MarginL", "MarginR", "MarginV"], "styles": []}
        if st:
            # the margins are given by the caller
            doc["styles"] = [dict(st, MarginL="0", MarginR="0", MarginV="0")]
        size = None
        if st and c.get("size"):
            # a size in points, alone or with the proportion
            n = int(float(st["Fontsize"]))
            st = dict(st, Fontsize=str(n))
            doc["styles"][0]["Fontsize"] = str(n)
            size = (None if c["size"] == "points" else n / c["ry"], n)
            self.label("base size " + c["size"])
        e = {"size": size, "style": "S", "ml": str(ml), "mr": str(mr), "mv": str(mv), "start": [0, 0, 0, 0], "end": [0, 0, 0, 0], "text": c["text"]}
        exp = ssa.event_runs(doc, e)
        base = {"text": "", "from": c["from"], "to": c["to"], "fup": c["fup"], "fdn": c["fdn"], "vp": [None if c["novp"] else f32(mv / c["ry"]), None, None, None],
                "st": {"font": None, "b": 0, "i": 0, "u": 0, "col": [1.0, 1.0, 1.0], "fsp": None, "fsq": None, "effect": None, "ecol": None, "hp": [0.0, 1]}}
        prim = [1.0, 1.0, 1.0]
        if st:
            prim = [f32(x) for x in ssa.colour(st["PrimaryColour"][0])]
            al = int(st["Alignment"])
            base["vp"][3] = [BOTTOM, VCENTRE, TOP][(al - 1) // 3]
            base["st"].update(font=st["Fontname"], b=st["Bold"] == "-1", i=st["Italic"] == "-1", u=st["Underline"] == "-1", col=prim, fsp=f32(float(st["Fontsize"]) / c["ry"]),
                              effect=SHADOW if st["BorderStyle"] == "1" else None, ecol=[f32(x) for x in ssa.colour(st["BackColour"][0])], hp=[0.5, (al - 1) % 3])
            if size:
                base["st"].update(fsp=None if size[0] is None else f32(size[0]), fsq=size[1])
        line = ssa.r_chunks(c["text"])
        if c["cr"]:
            # line terminators are not text
            line += "\r\n"
        tags = {t[0] for x in c["text"] if x[0] == "tags" for t in x[1]}
        self.nontrivial(bool(exp) and (bool(tags) or bool(st) or any(c["m"]) or any(x["row"] for x in exp)))
        self.label("base style", bool(st))
        self.label("geometry", c["geometry"])
        for t in tags:
            self.label("tag " + t)
        r = env.drv.call("ssaline", *(raw_tokens([base]) + [" ".join([str(c["rx"]), str(c["ry"])] + [fb(x) for x in prim] + [str(ml), str(mr)]), line.encode("utf8")]))
        m = expect_ok(r)
        if not m:
            subs = r["ok"]
            for x in subs:
                if not (time_is(c["from"], x["from"]) and time_is(c["to"], x["to"]) and opt_time_is(c["fup"], x["fup"]) and opt_time_is(c["fdn"], x["fdn"])):
                    return "times are %r, not those of the base %r; line %r" % ([x["from"], x["to"], x["fup"], x["fdn"]], c, line)
                x["from"] = x["to"] = [0, 0, 0, 0, ""]
                x["fup"] = x["fdn"] = None
            subs = [x for x in subs if x["text"]]
            act = [actual(x) for x in subs]

            def spread(rs):
                return [(ch, x) for x in rs for ch in x["text"]]
            a, b = spread(exp), spread(act)
            if "".join(x[0] for x in a) != "".join(x[0] for x in b):
                m = "text is %r, expected %r" % ("".join(x[0] for x in b), "".join(x[0] for x in a))
            else:
                for n, ((ch, x), (_, y)) in enumerate(zip(a, b)):
                    x, y = dict(x, text=""), dict(y, text="")
                    if c["geometry"]:
                        tol = 2e-5 * max(1.0, abs(x["hp"][0]), abs(x["vp"][0]), x["mag"])
                        d = None if x["hp"][1] == y["hp"][1] and near(x["hp"][0], y["hp"][0], tol) and x["vp"][3] == y["vp"][3] and near(x["vp"][0], y["vp"][0], tol) else "position"
                        if d:
                            m = "position of character %d (%r) is %r %r, expected %r %r" % (n, ch, y["hp"], y["vp"], x["hp"], x["vp"])
                            break
                    x["hp"] = x["vp"] = y["hp"] = y["vp"] = (0.0, 1)
                    d = field_diff(x, y)
                    if d:
                        m = "%s of character %d (%r) is %r, expected %r" % (d, n, ch, y[d], x[d])
                        break
        return m and "%s\nline %r with base %r" % (m, line, base)
