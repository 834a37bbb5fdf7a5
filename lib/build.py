"""Build the interpreter of /repo's working tree together with the harnesses."""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PSCM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "clang++-18" if subprocess.run(["sh", "-c", "command -v clang++-18"], stdout=subprocess.DEVNULL).returncode == 0 else "clang++"
IMPL = ["-std=gnu++20", os.environ.get("VF_OPT", "-O0"), "-g1", "-include", "limits.h", "-w"]
HARN = ["-std=gnu++20", "-O1", "-g1", "-w"]


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


def _digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def opt(source):
    # collections are forced very often
    # (it reads the whole stack: nothing for the address sanitizer)
    return ["-O2", "-fno-sanitize=address"] if os.path.basename(source) == "gc.cc" else []


def sources():
    return sorted(glob.glob(os.path.join(REPO, "src/c/**/*.cc"), recursive=True)
                  + glob.glob(os.path.join(REPO, "src/c/**/*.c"), recursive=True))


def headers():
    r = []
    for e in ("h", "hh", "hpp", "inc"):
        r += glob.glob(os.path.join(REPO, "src/**/*." + e), recursive=True)
    return sorted(r)


def build(harness, wraps=("tmpfile", "_Z8gc_alloc7TypeTagm"), name=None, impl_flags=(), link=("-static",)):
    """Compile /repo/src/c/*.cc (cached by content) and link harness src/<harness>.cc."""
    harn_flags = []
    if harness.endswith("+asan"):  # every access to malloc'ed memory is checked
        harness = harness[:-5]
        name = harness + ".asan"
        impl_flags = ("-fsanitize=address", "-mllvm", "-asan-stack=0", "-fno-omit-frame-pointer")
        harn_flags = ["-DVRUN_ASAN"]
        link = ("-fsanitize=address", "-rdynamic")
    name = name or harness
    hdrs = headers()
    hd = _digest(hdrs, " ".join(IMPL) + " ".join(impl_flags))
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    objs, jobs = [], []
    for s in sources():
        if os.path.basename(s) in ("main.cc", "repl.cc"):
            continue
        o = os.path.join(odir, os.path.basename(s) + "." + _digest([s], hd + " ".join(opt(s))) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))

    def comp(j):
        s, o = j
        tmp = o + ".tmp%d" % os.getpid()
        _run([CXX, *IMPL, *impl_flags, *opt(s), "-I" + os.path.join(REPO, "src/c"), "-I" + os.path.join(REPO, "src"), "-c", s, "-o", tmp])
        os.rename(tmp, o)

    hs = os.path.join(VERIF, "src", harness + ".cc")
    own = glob.glob(os.path.join(VERIF, "src", "*.hh")) + [os.path.join(VERIF, "src", "memtmp.cc"), hs]
    ho = os.path.join(odir, name + "." + _digest(own, hd + " ".join(HARN + harn_flags)) + ".o")
    exe = os.path.join(BUILD, name + "." + _digest([], " ".join(objs) + ho + " ".join(wraps) + " ".join(link)))
    if os.path.exists(exe):
        return exe

    def comph():
        if os.path.exists(ho):
            return
        tmp = ho + ".tmp%d" % os.getpid()
        _run([CXX, *HARN, *harn_flags, "-I" + os.path.join(REPO, "src/c"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "src"), "-c", hs, "-o", tmp])
        os.rename(tmp, ho)

    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        fs = [ex.submit(comph)] + [ex.submit(comp, j) for j in jobs]
        for f in fs:
            f.result()
    tmp = exe + ".tmp%d" % os.getpid()
    _run([CXX, *["-Wl,--wrap=" + w for w in wraps], ho, *objs, *link, "-o", tmp])
    os.rename(tmp, exe)
    return exe


def build_cli():
    """The command line program itself."""
    hd = _digest(headers(), " ".join(IMPL))
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    srcs = sources() + sorted(glob.glob(os.path.join(REPO, "src/*.cc")))
    objs = [os.path.join(odir, os.path.basename(s) + "." + _digest([s], hd + " ".join(opt(s))) + ".o") for s in srcs]
    mt = os.path.join(VERIF, "src", "memtmp.cc")
    exe = os.path.join(BUILD, "pscm." + _digest([mt], " ".join(objs)))
    if os.path.exists(exe):
        return exe

    def comp(j):
        s, o = j
        if os.path.exists(o):
            return
        tmp = o + ".tmp%d" % os.getpid()
        _run([CXX, *IMPL, *opt(s), "-I" + os.path.join(REPO, "src/c"), "-I" + os.path.join(REPO, "src"), "-c", s, "-o", tmp])
        os.rename(tmp, o)

    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(comp, zip(srcs, objs)))
    tmp = exe + ".tmp%d" % os.getpid()
    _run([CXX, *HARN, "-Wl,--wrap=tmpfile", mt, *objs, "-static", "-o", tmp])
    os.rename(tmp, exe)
    return exe


def build_tool(harness):
    """A harness that does not contain the implementation."""
    own = glob.glob(os.path.join(VERIF, "src", "*.hh")) + [os.path.join(VERIF, "src", harness + ".cc")]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, harness + "." + _digest(own, " ".join(HARN)))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        _run([CXX, *HARN, "-I" + os.path.join(VERIF, "src"), own[-1], "-static", "-o", tmp])
        os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    if sys.argv[1:] == ["all"]:
        build("vrun"), build_cli(), build_tool("vcli")
    else:
        print(build(sys.argv[1] if len(sys.argv) > 1 else "vrun"))
