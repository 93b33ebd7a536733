"""Builds a harness together with /repo's current sources (ninja, under /verif/build, never in /repo)."""
import glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HARNESS = os.path.join(VERIF, "harness")

COMMON = ["-std=c++20", "-DGAPP_BUILD_STATIC", "-D_GLIBCXX_ASSERTIONS", "-UNDEBUG", "-w", "-fno-omit-frame-pointer", "-pthread",
          "-I" + SRC, "-I" + HARNESS]
NO_FOLD = ["-fno-builtin-" + f for f in ("pow", "exp", "log", "sin", "cos", "tan", "cbrt", "exp2", "log2", "hypot", "tgamma", "lgamma", "fma")] + ["-ffp-contract=off"]
CONFIGS = {
    # one sanitizer family per build
    "asan":  ("clang++", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "asan0": ("clang++", ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "tsan":  ("clang++", ["-O1", "-g1", "-fsanitize=thread"]),
    "plain": ("clang++", ["-O2", "-g1"]),
    "gcc":   ("g++", ["-O2", "-g1"]),
    "val":   ("g++", ["-O1", "-g1", "-DVH_VALGRIND"]),
    # the two builds whose runs must be identical: strict IEEE arithmetic, mathematical functions never evaluated by the compiler
    "dbg":   ("g++", ["-O1", "-g1"] + NO_FOLD),
    "rel":   ("g++", ["-O3", "-g1", "-DNDEBUG", "-U_GLIBCXX_ASSERTIONS", "-fno-rtti"] + NO_FOLD),
    # the documented Release build, as a shared library
    "fast":  ("g++", ["-O1", "-g1", "-DNDEBUG", "-U_GLIBCXX_ASSERTIONS", "-fPIC"]),
}
# only for the library's own sources
LIB_FLAGS = {
    "rel":  ["-fno-exceptions"],
    "fast": ["-UGAPP_BUILD_STATIC", "-O3", "-fno-math-errno", "-fno-trapping-math", "-freciprocal-math", "-fno-signed-zeros", "-fno-associative-math", "-fno-finite-math-only"],
}
SHARED = {"fast"}

class BuildError(Exception):
    pass

def _files(root):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith((".hpp", ".cpp", ".h", ".inl", ".inc")):
                out.append(os.path.join(d, f))
    return sorted(out)

def _guard_stale(bdir):
    """ninja trusts mtimes; drop the build directory when content changed under an old mtime."""
    stamp = os.path.join(bdir, "content.json")
    cur = {}
    for f in _files(SRC) + _files(HARNESS):
        with open(f, "rb") as fh:
            cur[f] = hashlib.sha1(fh.read()).hexdigest()
    if os.path.exists(bdir):
        try:
            old = json.load(open(stamp))
            t = old["time"]
            for f, h in cur.items():
                if old["files"].get(f) != h and os.path.getmtime(f) <= t:
                    shutil.rmtree(bdir); break
        except Exception:
            shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir, exist_ok=True)
    json.dump({"time": time.time(), "files": cur}, open(stamp, "w"))

def _unity_groups(n):
    """Library sources in n groups of roughly equal cost (LPT by measured-ish weight: size)."""
    srcs = sorted(glob.glob(os.path.join(SRC, "*", "*.cpp")) + glob.glob(os.path.join(SRC, "*.cpp")))
    srcs.sort(key=lambda f: -(4000 + min(os.path.getsize(f), 20000)))
    groups = [[0, []] for _ in range(n)]
    for f in srcs:
        g = min(groups, key=lambda g: g[0])
        g[0] += 4000 + min(os.path.getsize(f), 20000); g[1].append(f)
    return [g[1] for g in groups if g[1]]

def build(targets, config, lib=True, extra=(), jobs=8, quiet=True, hflags=()):
    """targets: {binary_name: [harness sources]}. Returns {binary_name: path}."""
    comp, flags = CONFIGS[config]
    for unity in (True, False):
        tag = config + ("" if unity else "-nounity") + ("-" + hashlib.sha1(" ".join(list(extra) + list(hflags)).encode()).hexdigest()[:6] if extra or hflags else "")
        bdir = os.path.join(VERIF, "build", tag)
        _guard_stale(bdir)
        r = _ninja(bdir, comp, COMMON + flags + list(extra), targets, lib, unity, jobs, hflags, LIB_FLAGS.get(config, ()), config in SHARED)
        if r is None:
            return {b: os.path.join(bdir, b) for b in targets}
        if not lib:
            break
    raise BuildError(r)

def _ninja(bdir, comp, flags, targets, lib, unity, jobs, hflags=(), lflags=(), shared=False):
    L = ["ninja_required_version = 1.5", "cxx = " + comp, "flags = " + " ".join(flags), "hflags = " + " ".join(hflags), "lflags = " + " ".join(lflags),
         "rule cc", "  command = $cxx $flags $lflags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule cch", "  command = $cxx $flags $hflags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule link", "  command = $cxx $flags -o $out $in", "rule solink", "  command = $cxx $flags -shared -o $out $in", ""]
    objs = []; lines = []
    # harness objects first: they are the slowest
    done = set()
    for b, srcs in targets.items():
        hs = []
        for s in srcs:
            o = "h_" + s.replace("/", "_") + ".o"; hs.append(o)
            if o not in done:
                lines.append(f"build {o}: cch {os.path.join(HARNESS, s)}"); done.add(o)
        targets_line = (b, hs)
        objs.append(targets_line)
    libobjs = []
    if lib:
        if unity:
            for i, g in enumerate(_unity_groups(10)):
                u = os.path.join(bdir, f"unity{i}.cpp")
                text = "".join(f'#include "{f}"\n' for f in g)
                if not os.path.exists(u) or open(u).read() != text:
                    open(u, "w").write(text)
                lines.append(f"build unity{i}.o: cc {u}"); libobjs.append(f"unity{i}.o")
        else:
            for g in _unity_groups(1):
                for f in g:
                    o = "l_" + os.path.relpath(f, SRC).replace("/", "_") + ".o"
                    lines.append(f"build {o}: cc {f}"); libobjs.append(o)
    if shared:
        lines.append(f"build {os.path.join(bdir, 'libgapp.so')}: solink {' '.join(libobjs)}"); libobjs = [os.path.join(bdir, "libgapp.so")]
    for b, hs in objs:
        lines.append(f"build {b}: link {' '.join(hs + libobjs)}")
    nf = os.path.join(bdir, "build.ninja")
    text = "\n".join(L + lines) + "\ndefault " + " ".join(targets) + "\n"
    open(nf, "w").write(text)
    p = subprocess.run(["ninja", "-C", bdir, "-j", str(jobs)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return None if p.returncode == 0 else p.stdout[-6000:]
