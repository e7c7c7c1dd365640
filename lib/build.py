"""Builds kep3's sources (from /repo's working tree) and the monitors, one object cache per compiler configuration."""
import hashlib, os, re, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KEP3_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

CONFIGS = {
    # what users run: optimised, assertions off
    "opt": ("g++", ["-O2", "-DNDEBUG"], []),
    # optimised with the code's own assertions
    "dbg": ("g++", ["-O1"], []),
    "san": ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
                    "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"], []),
    # uninitialised values are valgrind's
    "vg": ("g++", ["-O1", "-g1", "-DNDEBUG"], []),
    "tsan": ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DNDEBUG"], []),
}
# Sources of kep3 that need libraries this sandbox has not got; shims under /verif/shims stand in for them.
NEED_SHIM = {"src/planet.cpp", "src/udpla/keplerian.cpp", "src/udpla/jpl_lp.cpp", "src/udpla/vsop2013.cpp",
             "src/leg/sims_flanagan_hf.cpp", "src/stark_problem.cpp", "src/ta/stark.cpp", "src/ta/cr3bp.cpp",
             "src/core_astro/flyby.cpp", "src/epoch.cpp"}
LIBS = ["-lfmt", "-lboost_serialization", "-llapack", "-lblas", "-lquadmath", "-lpthread"]


class BuildError(Exception):
    pass


def repo_sources():
    """The library sources listed by the repository's own CMakeLists.txt."""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    txt = re.sub(r"(^|\n)[ \t]*#[^\n]*", r"\1", txt)
    m = re.search(r"set\(kep3_SRC_FILES([^)]*)\)", txt)
    return re.findall(r"src/[A-Za-z0-9_/.-]+\.cpp", m.group(1))


def core_sources():
    return [s for s in repo_sources() if s not in NEED_SHIM]


def _digest_tree(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


def _config_header():
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    v = re.search(r"project\(kep3 VERSION ([0-9.]+)", txt).group(1)
    a = (v.split(".") + ["0", "0"])[:3]
    t = open(os.path.join(REPO, "config.hpp.in")).read()
    for k, x in {"kep3_VERSION": v, "kep3_VERSION_MAJOR": a[0], "kep3_VERSION_MINOR": a[1], "kep3_VERSION_PATCH": a[2]}.items():
        t = t.replace("@%s@" % k, x)
    d = os.path.join(BUILD, "include", "kep3")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "config.hpp")
    if not os.path.exists(p) or open(p).read() != t:
        open(p, "w").write(t)
    return os.path.join(BUILD, "include")


def _compile(args):
    cmd, obj, src = args
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "compiling %s failed:\n%s" % (src, r.stdout[-6000:])
    os.replace(tmp, obj)
    return None


def ensure(config, harness, shim_sources=(), shims=False, core=True, shared=False, extra_defs=(), extra_flags=(), only=None):
    """Returns the path of the program (or shared library) for /verif/harness/<harness>.cpp linked with kep3.

    shim_sources: kep3 sources compiled against /verif/shims in addition to the core ones."""
    cc, flags, lflags = CONFIGS[config]
    inc = [] if not shims else ["-I", os.path.join(VERIF, "shims")]
    genc = _config_header()
    inc += ["-I", os.path.join(REPO, "include"), "-I", genc, "-I", os.path.join(VERIF, "harness")]
    base = [cc, "-std=gnu++20", "-w", "-DBOOST_ALLOW_DEPRECATED_HEADERS"] + flags + list(extra_flags) + ["-D" + x for x in extra_defs]
    if shared:
        base.append("-fPIC")
    base += inc
    repo_inc = _digest_tree(os.path.join(REPO, "include"))
    shim_h = _digest_tree(os.path.join(VERIF, "shims")) if shims else ""
    harn_h = hashlib.sha256(b"".join(open(os.path.join(VERIF, "harness", f), "rb").read()
                                     for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if f.endswith(".hpp"))).hexdigest()
    outdir = os.path.join(BUILD, config)
    os.makedirs(outdir, exist_ok=True)
    jobs, objs = [], []
    srcs = (list(core_sources()) if core else []) + list(shim_sources)
    if only is not None:
        srcs = [s for s in srcs if s in only]
    for s in srcs:
        p = os.path.join(REPO, s)
        use_shim = shims
        key = hashlib.sha256("|".join(base + [repo_inc, shim_h if use_shim else "", s]).encode() + open(p, "rb").read()).hexdigest()[:20]
        o = os.path.join(outdir, s.replace("/", "_") + "." + key + ".o")
        objs.append(o); jobs.append((base, o, p))
    hp = os.path.join(VERIF, "harness", harness + ".cpp")
    key = hashlib.sha256("|".join(base + [repo_inc, shim_h, harn_h]).encode() + open(hp, "rb").read()).hexdigest()[:20]
    o = os.path.join(outdir, harness + "." + key + ".o")
    objs.append(o); jobs.insert(0, (base, o, hp))
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        errs = [e for e in ex.map(_compile, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))
    hh = hashlib.sha256("|".join(objs).encode()).hexdigest()[:20]
    exe = os.path.join(outdir, harness + "." + hh + (".so" if shared else ".exe"))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = [cc] + flags + lflags + (["-shared"] if shared else []) + objs + ["-o", tmp] + LIBS
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" % (harness, r.stdout[-6000:]))
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    print(ensure(sys.argv[1], sys.argv[2]))
