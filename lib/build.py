"""Builds harness binaries from /repo's current working tree into /verif/build.

Every translation unit is compiled through ccache (content hashed, so modification times never
matter); when ccache is missing, everything is compiled."""
import glob, os, re, subprocess, sys, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = 8

FLAGS = ["-std=c++14", "-O1", "-g0", "-w", "-DNDEBUG", "-DUSE_HDF5", "-D_GLIBCXX_ASSERTIONS",
         "-include", os.path.join(VERIF, "shim/eigen_check.h"),
         "-I" + REPO, "-isystem", "/usr/include/eigen3", "-I" + os.path.join(VERIF, "shim"),
         "-I" + os.path.join(VERIF, "shim/bogus"), "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "harness")]

# For the memory-safety check the repository's own sources (and the engine's main) are instrumented;
# harnesses are not. Null references and null arguments of empty ranges, which Eigen produces itself,
# are not judged: a real null access is a segmentation fault anyway.
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=null,nonnull-attribute,returns-nonnull-attribute,alignment,pointer-overflow,vptr",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-DEIGEN_MALLOC_ALREADY_ALIGNED=1"]

LIBDIRS = {
    "scisim": ["scisim"],
    "ball2d": ["ball2d", "ball2dutils"],
    "rigidbody2d": ["rigidbody2d", "rigidbody2dutils"],
    "rigidbody3d": ["rigidbody3d", "rigidbody3dutils"],
}
# With the embedded interpreter. The repository is written for Python 2; shim/py2compat.h gives the few entry points that
# changed their old form.
_NUMPY = sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/numpy/_core/include"))
_PYINC = sorted(glob.glob("/usr/include/python3.*/Python.h"))
PYSITE = os.path.dirname(os.path.dirname(os.path.dirname(_NUMPY[-1]))) if _NUMPY else ""
PYINC = os.path.dirname(_PYINC[-1]) if _PYINC else ""
PY = ["-DUSE_PYTHON", "-DVERIF_PYSITE=\"%s\"" % PYSITE, "-DNPY_TARGET_VERSION=NPY_2_0_API_VERSION", "-include", os.path.join(VERIF, "shim/py2compat.h"),
      "-isystem", PYINC, "-isystem", _NUMPY[-1] if _NUMPY else "/nonexistent"]

# Not buildable here: Ipopt, QL, Qt
SKIP = re.compile(r"Ipopt|QL")


def sources(lib):
    out = []
    for d in LIBDIRS[lib]:
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".cpp") and not SKIP.search(f):
                    out.append(os.path.relpath(os.path.join(root, f), REPO))
    return out


def env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(VERIF, "build", "ccache")
    e["CCACHE_MAXSIZE"] = "2G"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_COMPRESS"] = "1"
    e.pop("CCACHE_DISABLE", None)
    return e


CCACHE = shutil.which("ccache")


def compile_one(args):
    src, obj, extra = args
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = (["ccache"] if CCACHE else []) + ["g++"] + FLAGS + extra + ["-c", src, "-o", obj]
    p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return src, obj, p.returncode, p.stdout


class BuildError(Exception):
    pass


def build(name, libs, harness, mains=(), extra=(), py=False):
    """Returns the path of the linked binary. harness: files in /verif/harness; mains: repo files with a main();
    extra: sanitizer flags for everything but harnesses; py: with the embedded Python interpreter."""
    san = bool(extra)
    common = PY if py else []
    extra = list(extra) + common
    htag = "py" if py else "std"
    tag = hashlib.sha1(" ".join(extra).encode()).hexdigest()[:6] if extra else "std"
    jobs = []
    for lib in libs:
        for s in sources(lib):
            jobs.append((os.path.join(REPO, s), os.path.join(BUILD, "obj", tag, s + ".o"), extra))
    nlib = len(jobs)
    for h in harness:
        jobs.append((os.path.join(VERIF, "harness", h), os.path.join(BUILD, "obj", htag, "harness", h + ".o"), common))
    for m in mains:
        jobs.append((os.path.join(REPO, m), os.path.join(BUILD, "obj", tag, m + ".o"), extra))
    jobs.append((os.path.join(VERIF, "shim/fakeh5.cpp"), os.path.join(BUILD, "obj", "std", "fakeh5.o"), []))
    if not mains:
        jobs.append((os.path.join(VERIF, "lib/pbt_main.cpp"), os.path.join(BUILD, "obj", tag, "pbt_main.o"), extra))
    # Long compiles (harnesses) first
    order = sorted(range(len(jobs)), key=lambda i: (0 if i >= nlib else 1, i))
    objs = [None] * len(jobs)
    required_fail = []
    with ThreadPoolExecutor(JOBS) as ex:
        for i, (src, obj, rc, out) in zip(order, ex.map(compile_one, [jobs[i] for i in order])):
            if rc == 0:
                objs[i] = obj
            elif i >= nlib:
                required_fail.append((src, out))
            else:
                sys.stderr.write("note: %s does not compile here; left out\n%s\n" % (src, out[-1500:]))
    if required_fail:
        raise BuildError("\n".join("%s\n%s" % (s, o[-6000:]) for s, o in required_fail))
    binp = os.path.join(BUILD, "bin", name)
    os.makedirs(os.path.dirname(binp), exist_ok=True)
    lib = os.path.join(BUILD, "lib", name + ".a")
    os.makedirs(os.path.dirname(lib), exist_ok=True)
    if os.path.exists(lib):
        os.unlink(lib)
    libobjs = [o for o in objs[:nlib] if o]
    if libobjs:
        subprocess.run(["ar", "rcsP", lib] + libobjs, check=True)
    # Instrumented library objects come first, so that their versions of inline functions are the ones linked
    head = libobjs if san else []
    cmd = ["g++"] + (list(extra) if san else []) + head + [o for o in objs[nlib:] if o] + ([lib] if libobjs and not san else []) + ["-o", binp, "-pthread"] + (["-l" + os.path.basename(PYINC)] if py else [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError(p.stdout[-6000:])
    return binp
