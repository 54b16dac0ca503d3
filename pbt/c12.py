"""Coverage-guided fuzzing of the five readers and of everything that is done with what they return."""
import array, json, os, random, re, subprocess, time
from hashlib import blake2b
from pbt.core import Check, Src
from pbt import docs

FMT = {"srt": 0, "ssa": 1, "vtt": 2, "stltext": 3, "stlbin": 4}
RUNS = {"quick": 60000, "thorough": 3000000}
BUDGET = {"quick": 70, "thorough": 640}
NSEED = {"quick": 500, "thorough": 2500}
WORDS = ["-->", " --> ", "00:00:01,000", "00:00:01.000", "\n\n", "\r\n", "<font color=\"#112233\">", "</font>", "<font color=\"rgba(", "<b>", "</i>", "{\\an8}", "{\\pos(", "{\\c&H", "{\\fs", "\xe2\x80\xa8", "\xe2\x80\xab",
         "\xef\xbb\xbf", "WEBVTT", "NOTE", "STYLE", "[Script Info]\n", "[V4+ Styles]\n", "[Events]\n", "Format: ", "Style: ", "Dialogue: ", "PlayResX: ", "PlayResY: ", "Name", "Fontname", "Fontsize", "PrimaryColour",
         "BackColour", "Bold", "Alignment", "MarginV", "BorderStyle", "Start", "End", "Text", "&H00FFFFFF", "\\N", "0:00:01.00", "$FontName = ", "$Bold = True", "$FontSize = ", " , ", "^B", "|", "STL25.01", "STL23.01",
         "\xff", "\xfe", "\x8a", "\x8f", "\xc8e", "99999999999999", "-1", "1e99", "nan", "inf", "0x7fffffff", "2147483647", "-2147483648"]


def big(s, fmt):
    """a document of 20 to 120 kB, with long runs of one thing"""
    piece = {"srt": ["1\n00:00:01,000 --> 00:00:02,000\n", "<i>", "</font>", "<font color=\"#112233\">", "{\\i1}", "{", "<", "x", "\u2028", "\n", "<font ", "\u202b"],
             "ssa": ["[Events]\nFormat: Start, End, Text\n", "Dialogue: 0:00:01.00,0:00:02.00,", "{\\i1}", "\\N", "{", "x", ",", "{\\an8}", "\n", "Style: ", "[V4+ Styles]\nFormat: Name\n", "\\"],
             "vtt": ["WEBVTT\n\n", "00:00:01.000 --> 00:00:02.000\n", "x", "\u2028", "\n", "NOTE", "-->"],
             "stltext": ["00:00:01:00,00:00:02:00,", "^B", "|", "x", "\n", "$Bold = True\n", ",", " "],
             "stlbin": ["\x8a", "\x80", "x", "\xc8e"]}[fmt]
    t = docs.render(docs.gen(s, fmt)) if s.flag() or fmt == "stlbin" else piece[0].encode("utf8")
    n = s.int(20000, 120000)
    while len(t) < n:
        p = s.pick(piece).encode("latin1" if fmt == "stlbin" else "utf8")
        t += p * min(s.pick([1, 3, 300, 30000]), (n - len(t)) // len(p) + 1)
    return t


class CHECK(Check):
    id = "C12"
    technique = "coverage-guided fuzzing (libFuzzer, address and undefined-behaviour sanitizers) from generated and damaged documents"
    rule = ("libFuzzer over (format, way of supply, writer parameters, file): started from generated documents of the five formats, most of them damaged by edits, and from large documents with long runs of one "
            "construct; what a reader accepts is collected, dumped, written as binary STL and read again; non-trivial: a distinct input that a reader accepts and that gives at least one subtitle")
    targets = ["fuzz"]
    assumptions = ["an input that takes over 20 s (60 s if larger than 20 kB) or 3 GB counts as not terminating; integer overflow of absurd time fields is not counted as a failure unless it has further effects"]

    @classmethod
    def corpus(cls, rng, d, n):
        os.makedirs(d)
        for i in range(n):
            s = Src(rng)
            fmt = s.pick(docs.FORMATS)
            data = docs.render(docs.gen(s, fmt))
            if i % 4:
                data = docs.edit(data, docs.g_edits(s, 4))
            with open(os.path.join(d, "s%05d" % i), "wb") as f:
                f.write(bytes([FMT[fmt], s.n(256)]) + data[:6000])

    @classmethod
    def cmd(cls, exe, *args):
        return [exe, "-timeout=20", "-rss_limit_mb=3000", "-malloc_limit_mb=1500", "-close_fd_mask=1", "-detect_leaks=0"] + list(args)

    @classmethod
    def env(cls, **kw):
        return dict(os.environ, LC_ALL="C", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:handle_abort=1", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:silence_unsigned_overflow=1", **kw)

    @classmethod
    def reproduce(cls, exe, data, d, timeout=20):
        """None, or what goes wrong with this input in a fresh process"""
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "input")
        with open(p, "wb") as f:
            f.write(data)
        try:
            r = subprocess.run(cls.cmd(exe, "-timeout=%d" % timeout, p), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=d, env=cls.env(), timeout=timeout + 60)
        except subprocess.TimeoutExpired:
            return "no end within %d s" % (timeout + 60)
        if r.returncode == 0:
            return None
        return cls.why(r.stderr) or "exit status %d" % r.returncode

    @classmethod
    def why(cls, err):
        t = err.decode("latin1")
        L = [l.strip() for l in t.splitlines() if "ERROR" in l or "runtime error" in l or "ssert" in l or "what()" in l or " in sub::" in l or "SUMMARY" in l or "terminate" in l]
        return " | ".join(L[:7])[:1500]

    @classmethod
    def shrink(cls, exe, data, d, timeout):
        """removes pieces while the input still fails"""
        end = time.time() + 45
        best = data
        size = max(1, (len(best) - 2) // 2)
        while size >= 1 and time.time() < end:
            i = 2
            while i < len(best) and time.time() < end:
                c = best[:i] + best[i + size:]
                if cls.reproduce(exe, c, d, min(timeout, 20)):
                    best = c
                else:
                    i += size
            size //= 2
        return best

    @classmethod
    def custom_main(cls, pid, exes, scratch, tier, seed, t0, rep):
        from pbt import runner
        exe = exes["fuzz"]
        if rep:
            body = json.load(open(rep))
            m = cls.reproduce(exe, bytes.fromhex(body["input_hex"]), os.path.join(scratch, "r"), body.get("timeout", 20))
            if m:
                print("replayed: " + m)
                print("VIOLATION property=%s replay=%s" % (pid, rep))
                return 1
            print("replay passes: the property holds on this case")
            return 0
        nw = int(os.environ.get("VERIF_WORKERS", "8"))
        with open(os.path.join(scratch, "dict"), "w") as f:
            for w in WORDS:
                f.write("\"" + "".join("\\x%02x" % b for b in (w.encode("latin1") if all(ord(c) < 256 for c in w) else w.encode("utf8"))) + "\"\n")
        procs, found = [], []
        nbig = 0
        for w in range(nw):
            d = os.path.join(scratch, "w%d" % w)
            os.makedirs(d)
            rng = random.Random(seed * 7877 + w * 131 + 5)
            cls.corpus(rng, os.path.join(d, "corpus"), NSEED[tier])
            os.makedirs(os.path.join(d, "big"))
            for i in range(6 if tier == "quick" else 40):
                s = Src(rng)
                fmt = s.pick(docs.FORMATS)
                nbig += 1
                with open(os.path.join(d, "big", "b%03d" % i), "wb") as f:
                    f.write(bytes([FMT[fmt], s.n(256)]) + big(s, fmt))
            files = sorted(os.path.join(d, "big", x) for x in os.listdir(os.path.join(d, "big")))
            first = cls.cmd(exe, "-timeout=60", "-artifact_prefix=%s/" % d, *files)
            second = cls.cmd(exe, "-seed=%d" % (seed * 1009 + w * 17 + 1), "-runs=%d" % RUNS[tier], "-max_total_time=%d" % BUDGET[tier], "-max_len=6000", "-reload=0", "-artifact_prefix=%s/" % d,
                             "-dict=" + os.path.join(scratch, "dict"), "-print_final_stats=1", os.path.join(d, "corpus"))
            pid_ = os.fork()
            if pid_ == 0:
                try:
                    os.chdir(d)
                    null = open(os.devnull)
                    for n, c in enumerate((first, second)):
                        with open(os.path.join(d, "err%d" % n), "wb") as e:
                            rc = subprocess.run(c, stdin=null, stdout=subprocess.DEVNULL, stderr=e, cwd=d, env=cls.env(FUZZ_STATS=os.path.join(d, "stats%d" % n))).returncode
                        if rc:
                            break
                finally:
                    os._exit(0)
            procs.append(pid_)
        for p in procs:
            os.waitpid(p, 0)
        runs, accepted, rejected, written, refused = 0, 0, 0, 0, 0
        distinct, samples, fmts, cov = set(), [], [0] * 10, 0
        for w in range(nw):
            d = os.path.join(scratch, "w%d" % w)
            for n in (0, 1):
                try:
                    st = json.load(open(os.path.join(d, "stats%d" % n)))
                except (OSError, ValueError):
                    continue
                runs += st["runs"]
                accepted += st["accepted"]
                rejected += st["rejected"]
                written += st["written"]
                refused += st["refused"]
                fmts = [a + b for a, b in zip(fmts, st["formats"])]
                samples += st["samples"][:2]
                a = array.array("Q")
                with open(os.path.join(d, "stats%d.hashes" % n), "rb") as f:
                    a.frombytes(f.read())
                distinct.update(a)
            try:
                cov = max([cov] + [int(x) for x in re.findall(rb"cov: (\d+)", open(os.path.join(d, "err1"), "rb").read()[-20000:])])
            except OSError:
                pass
            for x in sorted(os.listdir(d)):
                if x.startswith(("crash-", "timeout-", "oom-", "leak-")):
                    found.append((x, open(os.path.join(d, x), "rb").read()))
        status = 0
        found.sort(key=lambda f: len(f[1]))
        for n, (name, data) in enumerate(found):
            limit = 60 if len(data) > 20000 else 20
            r = os.path.join(scratch, "r%d" % n)
            if not all(cls.reproduce(exe, data, r, limit) for _ in range(3)):
                print("INCONCLUSIVE: %s did not reproduce" % name)
                continue
            if not name.startswith("timeout-"):
                data = cls.shrink(exe, data, r, limit)
            m = cls.reproduce(exe, data, r, limit) or "fails"
            text = json.dumps({"property": pid, "seed": seed, "tier": tier, "message": m, "format": [k for k, v in FMT.items() if v == data[0] % 5][0], "timeout": limit, "input_hex": data.hex(),
                               "input": data[2:].decode("latin1")}, indent=1)
            os.makedirs(os.path.join(runner.VERIF, "replays"), exist_ok=True)
            path = os.path.join(runner.VERIF, "replays", "%s-%s.json" % (pid, blake2b(text.encode(), digest_size=6).hexdigest()))
            with open(path, "w") as f:
                f.write(text)
            print(m)
            print("input: %r" % data[2:1000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            status = 1
            break
        if not status and not found and runs < nw * 1000:
            raise RuntimeError("the fuzzer did not run: " + open(os.path.join(scratch, "w0", "err1"), "rb").read()[-1500:].decode("latin1"))
        names = [k for k, _ in sorted(FMT.items(), key=lambda x: x[1])]
        labels = {"accepted": accepted, "rejected with an exception": rejected, "written as binary STL": written, "refused by the writer or the second reading": refused}
        for i, k in enumerate(names):
            labels[k] = fmts[2 * i]
            labels[k + " giving subtitles"] = fmts[2 * i + 1]
        merged = {"evals": runs, "distinct": len(distinct), "samples": [{"format": names[bytes.fromhex(x)[0] % 5], "input": bytes.fromhex(x)[2:].decode("latin1")[:600]} for x in samples[:6]], "labels": labels,
                  "extra": {"edges_covered": cov, "seed_documents": nw * NSEED[tier], "large_documents": nbig}}
        runner.write_evidence(pid, cls, tier, seed, merged, time.time() - t0, status)
        print("%s %s: %d inputs, %d distinct non-trivial, %.1f s, %s" % (pid, tier, runs, len(distinct), time.time() - t0, "VIOLATED" if status else "held"))
        return status
