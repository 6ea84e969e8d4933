"""Builds the library from /repo's working tree, in several variants, and links harnesses.

Objects are cached by content: the key covers the flags, the source file and every
header it could include, so an edit in /repo always gives a fresh object.
"""
import fcntl, glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

VARIANTS = {
    "plain": ["-O2", "-g", "-DNDEBUG"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}
LINK = {"plain": [], "asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"]}
# The concurrency harness may map a file once for everybody in the process.
HARNESS_LINK = {"race": ["-Wl,--wrap=mmap", "-Wl,--wrap=mmap64", "-Wl,--wrap=munmap"],
                # These let the start of a thread fail.
                "scarce": ["-Wl,--wrap=pthread_create"], "leak": ["-Wl,--wrap=pthread_create"]}
INC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "shim")]
COMMON = ["-fPIC", "-pthread", "-w"]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers_digest(extra=()):
    h = hashlib.sha256()
    pats = [REPO + "/include/**/*.h", REPO + "/include/**/*.hpp", REPO + "/include/**/*.inc",
            REPO + "/src/*.h", REPO + "/src/*.hpp", REPO + "/src/*.inc",
            REPO + "/src/*/*.h", VERIF + "/shim/*.h"]
    files = set()
    for p in list(pats) + list(extra):
        files.update(glob.glob(p, recursive=True))
    for f in sorted(files):
        h.update(f.encode())
        h.update(_read(f))
    return h.hexdigest()


def _compile(args):
    src, flags, cxx, hdig, objdir = args
    key = hashlib.sha256()
    key.update(" ".join(flags).encode())
    key.update(b"c++" if cxx else b"c")
    key.update(hdig.encode())
    key.update(src.encode())
    key.update(_read(src))
    obj = os.path.join(objdir, os.path.basename(src) + "-" + key.hexdigest()[:24] + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    cmd = (["g++", "-std=c++17"] if cxx else ["gcc"]) + flags + ["-c", src, "-o", obj + ".tmp%d" % os.getpid()]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=REPO)
    if r.returncode != 0:
        raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    os.rename(obj + ".tmp%d" % os.getpid(), obj)
    return obj


def lib_sources():
    c = sorted(glob.glob(REPO + "/src/*.c"))
    cpp = sorted(glob.glob(REPO + "/src/*.cpp"))
    return c, cpp


def _prune(d, keep_newest):
    fs = sorted(glob.glob(d + "/*"), key=os.path.getmtime, reverse=True)
    for f in fs[keep_newest:]:
        try:
            os.unlink(f)
        except OSError:
            pass


def build(wanted, jobs=8):
    """wanted: list of (harness, variant); returns {(harness, variant): binary path}."""
    os.makedirs(BUILD, exist_ok=True)
    out = {}
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hdig = _headers_digest()
        hhdig = _headers_digest([VERIF + "/harness/*.hpp", VERIF + "/harness/*.h"])
        csrc, cppsrc = lib_sources()
        work = []
        slots = {}
        for v in sorted({v for _, v in wanted}):
            objdir = os.path.join(BUILD, "obj-" + v)
            os.makedirs(objdir, exist_ok=True)
            flags = VARIANTS[v] + COMMON + INC
            for s in csrc + [VERIF + "/shim/support.c"] * os.path.exists(VERIF + "/shim/support.c"):
                slots.setdefault(v, []).append(len(work))
                work.append((s, flags, False, hdig, objdir))
            for s in cppsrc + [VERIF + "/shim/yyjson_shim.cpp"]:
                slots.setdefault(v, []).append(len(work))
                work.append((s, flags + ["-DA0_EXT_NLOHMANN"], True, hdig, objdir))
        hslot = {}
        for h, v in wanted:
            objdir = os.path.join(BUILD, "obj-" + v)
            flags = VARIANTS[v] + COMMON + INC + ["-I" + REPO, "-I" + VERIF + "/harness", "-DA0_EXT_NLOHMANN"]
            hslot[(h, v)] = len(work)
            work.append((VERIF + "/harness/" + h + ".cpp", flags, True, hhdig, objdir))
        # The slowest files first keeps the cores busy.
        order = sorted(range(len(work)), key=lambda i: not work[i][2])
        with ThreadPoolExecutor(jobs) as ex:
            res = dict(zip(order, ex.map(_compile, [work[i] for i in order])))
        bindir = os.path.join(BUILD, "bin")
        os.makedirs(bindir, exist_ok=True)

        def link(hv):
            h, v = hv
            objs = [res[hslot[hv]]] + [res[i] for i in slots[v]]
            key = hashlib.sha256("\n".join(objs + HARNESS_LINK.get(h, [])).encode()).hexdigest()[:16]
            exe = os.path.join(bindir, "%s-%s-%s" % (h, v, key))
            if not os.path.exists(exe):
                cmd = ["g++", "-pthread", "-Wl,-z,now"] + LINK[v] + HARNESS_LINK.get(h, []) + objs + ["-o", exe + ".tmp", "-ldl"]
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode != 0:
                    raise BuildError("link failed: %s\n%s" % (h, r.stdout.decode(errors="replace")[-6000:]))
                os.rename(exe + ".tmp", exe)
            else:
                os.utime(exe)
            return exe
        with ThreadPoolExecutor(jobs) as ex:
            for hv, exe in zip(wanted, ex.map(link, wanted)):
                out[hv] = exe
        _prune(bindir, 160)
        for v in VARIANTS:
            _prune(os.path.join(BUILD, "obj-" + v), 600)
    return out


if __name__ == "__main__":
    from checks import CHECKS
    wanted = sorted({(r["harness"], r["variant"]) for c in CHECKS.values() for r in c["runs"]})
    try:
        build(wanted)
    except BuildError as e:
        print(e)
        sys.exit(2)
    print("built %d harness binaries" % len(wanted))
