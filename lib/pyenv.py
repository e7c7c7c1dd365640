"""Builds kep3's Python package (from /repo's working tree) against the stand-ins under /verif/shims and /verif/pyshim."""
import concurrent.futures as cf, glob, hashlib, os, shutil, subprocess
from . import build as B

PYTHON = "/opt/veriftools/pyvenv/bin/python"
SHIM = os.path.join(B.VERIF, "pyshim")


def include_dir():
    r = subprocess.run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"], stdout=subprocess.PIPE, text=True, check=True)
    return r.stdout.strip()


def ensure(config="opt"):
    """The directory to put on PYTHONPATH: it holds the package pykep (the repository's .py files, the compiled core)."""
    cc, flags, lflags = B.CONFIGS[config]
    genc = B._config_header()
    base = [cc, "-std=gnu++20", "-w", "-fPIC", "-fvisibility=default", "-DBOOST_ALLOW_DEPRECATED_HEADERS", "-DVF_BINARY_ARCHIVES"] + flags
    base += ["-I", SHIM, "-I", os.path.join(B.VERIF, "shims"), "-I", os.path.join(B.REPO, "include"), "-I", genc, "-I", include_dir()]
    repo_inc = B._digest_tree(os.path.join(B.REPO, "include"))
    lib_h = repo_inc + B._digest_tree(os.path.join(B.VERIF, "shims"))
    py_h = lib_h + B._digest_tree(os.path.join(SHIM, "pybind11")) + "".join(
        hashlib.sha256(open(f, "rb").read()).hexdigest() for f in sorted(glob.glob(os.path.join(B.REPO, "pykep", "*.hpp"))))
    out = os.path.join(B.BUILD, "py-" + config)
    os.makedirs(out, exist_ok=True)
    jobs, objs = [], []
    srcs = [os.path.join("pykep", os.path.basename(f)) for f in sorted(glob.glob(os.path.join(B.REPO, "pykep", "*.cpp")))]
    srcs.sort(key=lambda s: 0 if s.endswith("core.cpp") else 1)
    for s in srcs + list(B.repo_sources()):
        p = os.path.join(B.REPO, s)
        h = py_h if s.startswith("pykep") else lib_h
        key = hashlib.sha256("|".join(base + [h, s]).encode() + open(p, "rb").read()).hexdigest()[:20]
        o = os.path.join(out, s.replace("/", "_") + "." + key + ".o")
        objs.append(o)
        jobs.append((base, o, p))
    # the C++ side of the comparison, in the same module so that both sides run the same object code
    p = os.path.join(SHIM, "ref.cpp")
    o = os.path.join(out, "ref." + hashlib.sha256("|".join(base + [lib_h]).encode() + open(p, "rb").read()).hexdigest()[:20] + ".o")
    objs.append(o)
    jobs.insert(1, (base, o, p))
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        errs = [e for e in ex.map(B._compile, jobs) if e]
    if errs:
        raise B.BuildError("\n".join(errs))
    py = sorted(f for f in glob.glob(os.path.join(B.REPO, "pykep", "**", "*"), recursive=True)
                if os.path.isfile(f) and not f.endswith((".cpp", ".hpp", ".pyc", ".so", ".in", ".txt")) and "__pycache__" not in f)
    h = hashlib.sha256("|".join(objs).encode())
    for f in py:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    root = os.path.join(out, "pkg-" + h.hexdigest()[:20])
    if not os.path.exists(os.path.join(root, "done")):
        tmp = root + ".%d.tmp" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        for f in py:
            d = os.path.join(tmp, "pykep", os.path.relpath(f, os.path.join(B.REPO, "pykep")))
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(f, d)
        open(os.path.join(tmp, "pykep", "_version.py"), "w").write("__version__ = \"0\"\n")
        cmd = [cc] + flags + lflags + ["-shared"] + objs + ["-o", os.path.join(tmp, "pykep", "core.so")] + B.LIBS
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise B.BuildError("linking the Python module failed:\n%s" % r.stdout[-6000:])
        open(os.path.join(tmp, "done"), "w").close()
        if os.path.exists(root):
            shutil.rmtree(tmp)
        else:
            try:
                os.rename(tmp, root)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
    return root


def preload(config):
    """Sanitizer runtimes to preload into the (uninstrumented) interpreter."""
    if config != "san":
        return None
    r = []
    for n in ("libasan.so", "libubsan.so", "libstdc++.so"):
        r.append(subprocess.run(["g++", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True, check=True).stdout.strip())
    return ":".join(r)
