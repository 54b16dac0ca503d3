from pbt.core import Check, fbits, f32
from pbt.model import txt
from pbt import stltables as T

STR_TABLES = {"language": [c for c, _ in T.LANGUAGES], "display_standard": [c for c, _ in T.DISPLAY], "language_group": [c for c, _ in T.GROUP],
              "timecode_status": [c for c, _ in T.STATUS]}
DESCR = {"language": [d for _, d in T.LANGUAGES], "display_standard": [d for _, d in T.DISPLAY], "language_group": [d for _, d in T.GROUP],
         "timecode_status": [d for _, d in T.STATUS], "cumulative_status": T.CUMULATIVE, "justification": T.JUSTIFICATION, "comment": T.COMMENT}
INT_TABLES = {"cumulative_status": 4, "justification": 4, "comment": 2}


class CHECK(Check):
    id = "C19"
    rule = ("all one- and two-character byte strings as codes of every textual table (exhaustive), every integer -300..300 for the numeric ones, every value of "
            "every enumeration, every description and near-miss; and random sequences of look-ups with random strings and frame rates; non-trivial: the call "
            "reaches a table with a code, value or description that differs from an existing one by at most one character, or is one")
    quick = 60000
    thorough = 1000000

    def fixed(self, tier):
        ops = []
        for t in STR_TABLES:
            ops.append([[t + "_f2e", ""]])
            ops.append([[t + "_f2e", chr(a)] for a in range(256)])
            for a in range(256):
                ops.append([[t + "_f2e", chr(a) + chr(b)] for b in range(256)])
        for t in INT_TABLES:
            ops.append([[t + "_f2e", n] for n in range(-300, 301)])
            ops.append([[t + "_e2f", n] for n in range(INT_TABLES[t])])
        for t in DESCR:
            ops.append([[t + "_e2d", n] for n in range(len(DESCR[t]))])
        ops.append([["language_e2f", n] for n in range(len(T.LANGUAGES))])
        ops.append([["language_d2e", d] for d in DESCR["language"]])
        ops.append([["language_d2e", x] for d in DESCR["language"] for x in (d.lower(), d + " ", d[:-1], " " + d) if x not in DESCR["language"]])
        ops.append([["dfc2rate", c] for c in T.RATES] + [["rate2dfc", r] for r in T.RATES.values()])
        return [{"ops": o} for o in ops]

    def gen(self, s):
        def near(s, pool):
            v = s.pick(pool)
            k = s.n(5)
            if k == 0:
                return v
            i = s.n(len(v))
            c = chr(s.pick([s.int(32, 126), s.int(0, 255)]))
            return [None, v[:i] + c + v[i + 1:], v[:i] + v[i + 1:], v + c, v.lower()][k]

        def op(s):
            k = s.n(8)
            if k < 3:
                t = s.pick(sorted(STR_TABLES))
                return [t + "_f2e", near(s, STR_TABLES[t])]
            if k == 3:
                return ["language_d2e", near(s, DESCR["language"])]
            if k == 4:
                return ["dfc2rate", near(s, list(T.RATES) + ["STL50.01", "STL29.01", "STL23.98"])]
            if k == 5:
                if s.flag():
                    return ["rate2dfc", f32(s.pick(list(T.RATES.values())) + s.pick([0, 1e-5, -1e-5]))]
                return ["rate2dfc", f32(s.pick([50.0, 29.97, 60.0, 48.0, 12.0, 23.9, 24.5, 25.1, 100.0, 29.9]))]
            if k == 6:
                t = s.pick(sorted(INT_TABLES))
                return [t + "_f2e", s.edge(-3, 300)]
            t = s.pick(sorted(DESCR))
            return [t + "_e2d", s.n(len(DESCR[t]))]
        return {"ops": s.list(op, 1, 8, 0.7)}

    def expect(self, fn, arg):
        if fn == "rate2dfc":
            for c, r in T.RATES.items():
                if abs(r - arg) < 5e-5:
                    return c
            return None    # not judged: which code is chosen for a rate that has none
        if fn == "dfc2rate":
            return T.RATES.get(arg, "STLError")
        if fn == "language_d2e":
            return DESCR["language"].index(arg) if arg in DESCR["language"] else "none"
        t, d = fn.rsplit("_", 1)
        if d == "e2d":
            return DESCR[t][arg]
        if d == "e2f":
            return T.LANGUAGE_CODE[arg] if t == "language" else arg
        if t in INT_TABLES:
            return arg if 0 <= arg < INT_TABLES[t] else "STLError"
        return STR_TABLES[t].index(arg) if arg in STR_TABLES[t] else "STLError"

    def run(self, c, env):
        toks = [str(len(c["ops"]))]
        for fn, arg in c["ops"]:
            toks += [fn, (str(fbits(arg)) if fn == "rate2dfc" else arg if isinstance(arg, str) else str(arg)).encode("latin1")]
        r = env.drv.call("tables", *toks)["ok"]
        for (fn, arg), o in zip(c["ops"], r):
            want = self.expect(fn, arg)
            self.label(fn)
            self.nontrivial()
            if want is None:
                if not isinstance(o, str) or o not in T.RATES:
                    return "%s(%r) is %r, which is not a disk format code" % (fn, arg, o)
                continue
            if want == "STLError":
                self.label("unknown code")
                ok = isinstance(o, dict) and o["err"] == "STLError"
            elif want == "none":
                ok = o is None
            elif isinstance(want, float):
                ok = isinstance(o, (int, float)) and abs(o - want) < 1e-4
            else:
                ok = o == want
            if not ok:
                return "%s(%r) is %r, expected %r" % (fn, arg, o, want)
        return None
