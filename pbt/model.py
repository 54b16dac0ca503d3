"""Reference vocabulary shared by the reader models: runs, comparison, text and time generators."""
from pbt.core import Src, txt, f32

TOP, VCENTRE, BOTTOM, TOP_OF_SUB = 0, 1, 2, 3
LEFT, HCENTRE, RIGHT = 0, 1, 2
BORDER, SHADOW = 0, 1
WHITE = (1.0, 1.0, 1.0)


def run(text, frm, to, **kw):
    """an expected run; times are (h, m, s, ms)"""
    r = {"text": text, "from": tuple(frm), "to": tuple(to), "b": False, "i": False, "u": False, "col": WHITE,
         "font": None, "fs": (None, None), "effect": None, "ecol": None,
         "hp": (0.0, HCENTRE), "vp": (None, None, None, None), "fup": None, "fdn": None}
    r.update(kw)
    return r


def actual(js):
    """driver's run -> the same shape"""
    biu = js["biu"]
    return {"text": txt(js["text"]), "from": js["from"], "to": js["to"], "b": biu[0] == "B", "i": biu[1] == "I", "u": biu[2] == "U",
            "col": tuple(js["col"]), "font": None if js["font"] is None else txt(js["font"]), "fs": tuple(js["fs"]),
            "effect": js["effect"], "ecol": None if js["ecol"] is None else tuple(js["ecol"]),
            "hp": tuple(js["hp"]), "vp": tuple(js["vp"]), "fup": js["fup"], "fdn": js["fdn"]}


def near(a, b, tol):
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return abs(a - b) <= tol


def time_equal(exp, act):
    """exp (h,m,s,ms) or ("frames", h,m,s,f) against [h,m,s,ms,str]"""
    if exp[0] == "frames":
        return list(exp[1:4]) == act[:3] and act[3] is None and act[4] == "%02d:%02d:%02d:%d" % exp[1:5]
    if isinstance(exp[3], float):
        # exactly between two milliseconds
        return list(exp[:3]) == act[:3] and act[3] is not None and abs(exp[3] - act[3]) <= 0.5
    return list(exp) == act[:4]


def field_diff(e, a, tol=1e-5):
    for k in ("text", "b", "i", "u", "font", "effect"):
        if e[k] != a[k]:
            return k
    for k in ("from", "to"):
        if not time_equal(e[k], a[k]):
            return k
    for k in ("fup", "fdn"):
        if a[k] is not None:
            return k
    for k in ("col", "ecol", "fs", "hp", "vp"):
        x, y = e[k], a[k]
        if (x is None) != (y is None):
            return k
        if x is not None and not all(near(p, q, tol) for p, q in zip(x, y)):
            return k
    return None


def merge(runs):
    """join neighbouring runs that differ in text only: how finely a row is cut is not part of the properties"""
    out = []
    for r in runs:
        if out and all(out[-1][k] == r[k] for k in r if k != "text"):
            out[-1] = dict(out[-1], text=out[-1]["text"] + r["text"])
        else:
            out.append(dict(r))
    return out


def compare_runs(exp, js_subs, tol=1e-5, drop_empty=False, do_merge=True):
    """None, or how the reader's runs differ from the expected ones"""
    act = [actual(j) for j in js_subs]
    if drop_empty:
        act = [a for a in act if a["text"] != ""]
        exp = [e for e in exp if e["text"] != ""]
    if do_merge:
        exp, act = merge(exp), merge(act)
    for n, (e, a) in enumerate(zip(exp, act)):
        d = field_diff(e, a, tol)
        if d:
            return "run %d: %s is %r, expected %r (run text %r, expected %r)" % (n, d, a[d], e[d], a["text"], e["text"])
    if len(exp) != len(act):
        extra = act[len(exp):] or exp[len(act):]
        return "%d runs read, %d expected; first %s: %r" % (len(act), len(exp), "extra" if len(act) > len(exp) else "missing", extra[0]["text"])
    return None


def read(env, fmt, src, data):
    return env.drv.call("read", fmt, src, data)


def expect_ok(r):
    """-> message when the driver reports an exception"""
    if "err" in r:
        return "rejected: %s (%s)" % (r["err"], txt(r.get("what", "")))
    return None


# ------------------------------------------------------------------ generators

WORDS = ["a", "Hello", "the", "world", "I", "42", "caf\u00e9", "\u4f60\u597d", "na\u00efve", "\u0416\u0443\u043a", "x=y", "50%", "O'Neil",
         "...", "-", "?!", "it's", "A.B", "\u266a", "\U0001f600", "\"q\"", "e\u0301", "#1", "~", "_x_", "1/2", "%1", "$", "&amp;", "@", "\u00a0", "*", "=",
         "tab\there", "z" * 30]


def words(s, extra=(), lo=1, hi=4, ws=WORDS):
    pool = list(ws) + list(extra)
    n = s.int(lo, hi)
    out = s.pick(pool)
    for _ in range(n - 1):
        out += s.pick([" ", "", "  "]) + s.pick(pool)
    if s.flag(1, 400):
        # a long one, of about the size of some buffer
        k = s.pick([64, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 1100])
        out = (out + " ") * (k // (len(out) + 1)) + out[:1] * (k % (len(out) + 1))
        out = out.strip(" ") or "x"
    return out


def time_ms(s, max_h=30):
    h = s.edge(0, max_h, 1, 9, 10, 23, 24)
    if s.flag(1, 64):
        h = s.pick([99, 100, 255, 256, 999])
    return [h, s.edge(0, 59), s.edge(0, 59), s.edge(0, 999, 1, 10, 40, 99, 100, 500)]


def to_ms(t):
    return ((t[0] * 60 + t[1]) * 60 + t[2]) * 1000 + t[3]


def from_ms(v):
    return [v // 3600000, v // 60000 % 60, v // 1000 % 60, v % 1000]


def span(s, max_h=30):
    a = time_ms(s, max_h)
    if s.flag(1, 6):
        b = time_ms(s, max_h)   # any order
    else:
        b = from_ms(to_ms(a) + s.edge(0, 100000, 1, 40, 999, 1000))
    return a, b
