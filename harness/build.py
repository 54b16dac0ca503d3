"""Builds harness binaries from /repo's current working tree, cached by the hash of all inputs."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("LIBSUB_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

BASE = ["-std=c++11", "-g1", "-pthread", "-DLIBSUB_POSIX", '-DLIBSUB_VERSION="verif"',
        "-DBOOST_NO_CXX11_SCOPED_ENUMS", "-D_GLIBCXX_ASSERTIONS", "-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow,float-cast-overflow,vptr",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
LIBS = ["-lboost_filesystem", "-lboost_locale", "-lboost_regex", "-lboost_system", "-lpthread"]

# name -> (compiler, flags for everything, extra link flags, main source)
TARGETS = {
    "driver": ("clang++", ["-O1"] + SAN, [], os.path.join(HERE, "driver.cc")),
    "fuzz": ("clang++", ["-O1", "-fsanitize=fuzzer-no-link"] + SAN, ["-fsanitize=fuzzer"], os.path.join(HERE, "fuzz.cc")),
    "tsan": ("clang++", ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"], [], os.path.join(HERE, "driver.cc")),
    "oom": ("clang++", ["-O1"] + SAN, [], os.path.join(HERE, "oom.cc")),
    "dumpsubs": ("clang++", ["-O1"] + SAN, [], None),
}

def sources():
    return sorted(f for f in glob.glob(REPO + "/src/*.cc") if not f.endswith("/version.cc"))

def tree_hash(target):
    h = hashlib.sha256()
    files = sources() + sorted(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/src/*.hpp")) + sorted(glob.glob(REPO + "/tools/*.cc"))
    files += [os.path.join(HERE, "build.py")]
    if TARGETS[target][3]:
        files += [TARGETS[target][3], os.path.join(HERE, "driver.cc")]
    for f in files:
        h.update(os.path.basename(f).encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    h.update(target.encode())
    return h.hexdigest()[:20]

LOCALES = {"de_DE.UTF-8": ("de_DE", "UTF-8"), "fr_FR.UTF-8": ("fr_FR", "UTF-8"), "tr_TR.UTF-8": ("tr_TR", "UTF-8"), "tr_TR.ISO-8859-9": ("tr_TR", "ISO-8859-9"),
           "en_US.ISO-8859-1": ("en_US", "ISO-8859-1"), "ps_AF.UTF-8": ("ps_AF", "UTF-8"), "de_CH.UTF-8": ("de_CH", "UTF-8"), "zh_CN.GB18030": ("zh_CN", "GB18030")}

def locales():
    """Compiles the locales the checks use into a directory fit for LOCPATH, and returns it."""
    out = os.path.join(BUILD, "locales")
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-locales"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for name, (src, charmap) in LOCALES.items():
            d = os.path.join(out, name)
            if not os.path.exists(os.path.join(d, "LC_CTYPE")):
                r = subprocess.run(["localedef", "-i", src, "-f", charmap, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if not os.path.exists(os.path.join(d, "LC_CTYPE")):
                    raise RuntimeError("cannot compile locale %s: %s" % (name, r.stdout.decode("latin1")[-500:]))
    return out

def build(target):
    """Returns the path of the binary; raises RuntimeError if it does not compile."""
    if target == "locales":
        return locales()
    comp, flags, link, main = TARGETS[target]
    if target == "dumpsubs":
        main = REPO + "/tools/dumpsubs.cc"
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash(target)
    out = os.path.join(BUILD, "%s-%s" % (target, key))
    exe = os.path.join(out, target)
    with open(os.path.join(BUILD, ".lock-" + target), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            os.utime(out)
            return exe
        old = sorted(glob.glob(os.path.join(BUILD, target + "-*")), key=os.path.getmtime)
        for d in old[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        # one object per source, keyed on its preprocessed text so that unchanged sources are not recompiled
        objs = os.path.join(BUILD, "obj")
        os.makedirs(objs, exist_ok=True)
        incs = ["-I" + REPO + "/src", "-I" + REPO]
        def one(src):
            cmd = [comp] + BASE + flags + incs
            pre = subprocess.run(cmd + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if pre.returncode:
                return src, pre.stderr.decode("utf8", "replace"), None
            k = hashlib.sha256(" ".join(cmd).encode() + pre.stdout).hexdigest()[:24]
            o = os.path.join(objs, k + ".o")
            if os.path.exists(o):
                os.utime(o)
                return src, None, o
            t = o + ".%d.tmp" % os.getpid()
            r = subprocess.run(cmd + ["-c", src, "-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                return src, r.stdout.decode("utf8", "replace"), None
            os.rename(t, o)
            return src, None, o
        srcs = sorted(sources() + [main], key=lambda p: -os.path.getsize(p))
        first = None
        # the repository is built with g++, so what clang++ alone refuses is tried with that
        for comp in [comp] + (["g++"] if target != "fuzz" else []):
            with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
                res = list(ex.map(one, srcs))
            bad = [(s, e) for s, e, o in res if o is None]
            if not bad:
                break
            first = first or bad
        if bad:
            bad = first
        if bad:
            raise RuntimeError("cannot compile %s:\n%s" % (bad[0][0], bad[0][1][-3000:]))
        r = subprocess.run([comp] + flags + link + ["-o", os.path.join(tmp, target)] + [o for _, _, o in res] + LIBS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError("cannot link %s:\n%s" % (target, r.stdout.decode("utf8", "replace")[-3000:]))
        os.rename(tmp, out)
        os_ = sorted(glob.glob(os.path.join(objs, "*.o")), key=os.path.getmtime)
        for o in os_[:-400]:
            try: os.unlink(o)
            except OSError: pass
        return exe

if __name__ == "__main__":
    for t in sys.argv[1:] or ["driver"]:
        print(build(t))
