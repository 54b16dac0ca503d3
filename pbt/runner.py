"""check ID: build, generate, judge, shrink, report."""
import importlib, json, os, shutil, sys, tempfile, time, traceback
from hashlib import blake2b

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, "harness"))
import build as builder
from pbt import core


def load(pid):
    mod = importlib.import_module("pbt." + pid.lower())
    return mod.CHECK


def make_env(check_cls, scratch, tier):
    exes = {t: builder.build(t) for t in check_cls.targets}
    return exes


def shorten(case, most=20000):
    """A sample for the evidence, in outline if it is very long."""
    def cut(x, n):
        if isinstance(x, dict):
            return {k: cut(v, n) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [cut(v, n) for v in x[:n]] + (["... %d more" % (len(x) - n)] if len(x) > n else [])
        if isinstance(x, str) and len(x) > 20 * n:
            return x[:20 * n] + "... %d more" % (len(x) - 20 * n)
        return x
    n = 1000
    while n > 1 and len(json.dumps(case)) > most:
        case, n = cut(case, n), n // 2
    return case


def write_evidence(pid, cls, tier, seed, merged, wall, violations):
    cov = {"evaluations": merged["evals"], "distinct_nontrivial": merged["distinct"], "rule": cls.rule,
           "samples": [shorten(x) for x in merged["samples"]], "classes": merged["labels"]}
    cov.update(merged.get("extra", {}))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": list(cls.assumptions), "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def save_replay(pid, failure, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "seed": seed, "tier": tier, "message": failure["message"], "cases": failure["cases"]}
    text = json.dumps(body, indent=1)
    p = os.path.join(d, "%s-%s.json" % (pid, blake2b(text.encode(), digest_size=6).hexdigest()))
    with open(p, "w") as f:
        f.write(text)
    return p


def clip(s, n=1500):
    return s if len(s) <= n else s[:n] + "..."


def run_workers(cls, exes, scratch, tier, seed, total, budget):
    nw = int(os.environ.get("VERIF_WORKERS", "8"))
    stop = os.path.join(scratch, "stop")
    pids = []
    for w in range(nw):
        d = os.path.join(scratch, "w%d" % w)
        os.makedirs(d)
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                env = core.Env(exes, d, tier)
                core.worker(cls(), env, seed, w, nw, (total + nw - 1) // nw, os.path.join(d, "out.json"), stop, budget)
            except BaseException:
                traceback.print_exc()
                rc = 2
            os._exit(rc)
        pids.append(pid)
    bad = 0
    for p in pids:
        _, st = os.waitpid(p, 0)
        bad |= st
    if bad:
        raise RuntimeError("a worker failed")
    res = [json.load(open(os.path.join(scratch, "w%d" % w, "out.json"))) for w in range(nw)]
    labels, distinct, samples = {}, set(), []
    for r in res:
        distinct.update(r["distinct"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    for k in range(6):
        for r in res:
            if k < len(r["samples"]) and len(samples) < 8:
                samples.append(r["samples"][k])
    merged = {"evals": sum(r["evals"] for r in res), "distinct": len(distinct), "samples": samples,
              "labels": dict(sorted(labels.items())),
              "extra": {"completed_planned_cases": all(r["complete"] for r in res)}}
    return merged, [r["failure"] for r in res if r["failure"]]


def replay(cls, exes, scratch, cases, tier, n=0):
    d = os.path.join(scratch, "r%d" % n)
    os.makedirs(d)
    env = core.Env(exes, d, tier)
    c = cls()
    c.setup(env)
    try:
        # more than once where the outcome depends on how threads are scheduled
        for _ in range(cls.replay_times):
            m = core.run_sequence(c, cases, env)
            if m:
                return m
    finally:
        env.reset()


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    rep = None
    a = argv[1:]
    while a:
        x = a.pop(0)
        if x == "--replay":
            rep = a.pop(0)
        elif x == "--tier":
            tier = a.pop(0)
        elif x == "--seed":
            seed = int(a.pop(0))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    cls = load(pid)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        exes = make_env(cls, scratch, tier)
        if hasattr(cls, "custom_main"):
            return cls.custom_main(pid, exes, scratch, tier, seed, t0, rep)
        if rep:
            body = json.load(open(rep))
            m = replay(cls, exes, scratch, body["cases"], tier)
            if m:
                print("replayed: " + clip(m))
                print("VIOLATION property=%s replay=%s" % (pid, rep))
                return 1
            print("replay passes: the property holds on this case")
            return 0
        total = cls.quick if tier == "quick" else cls.thorough
        budget = 400 if tier == "quick" else 700
        merged, fails = run_workers(cls, exes, scratch, tier, seed, total, budget)
        status, violations = 0, 0
        fails.sort(key=lambda f: len(json.dumps(f["cases"])))
        n = 0
        for f in fails:
            ms = []
            for _ in range(3):
                n += 1
                ms.append(replay(cls, exes, scratch, f["cases"], tier, n))
            if all(ms):
                path = save_replay(pid, dict(f, message=ms[0]), seed, tier)
                print(clip(ms[0]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
                status, violations = 1, 1
                break
            print("INCONCLUSIVE: a failure did not reproduce: " + clip(f["message"]))
        write_evidence(pid, cls, tier, seed, merged, time.time() - t0, violations)
        print("%s %s: %d cases, %d distinct non-trivial, %.1f s, %s" %
              (pid, tier, merged["evals"], merged["distinct"], time.time() - t0, "VIOLATED" if violations else "held"))
        return status
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
