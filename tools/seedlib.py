"""Writes /verif/seeded/<id>/ from short descriptions and tries them.

    python3 tools/seeds.py write [ID...]     regenerate patch.diff, demo.sh, demo.cpp, meta.json
    python3 tools/seeds.py try   [ID...]     apply in /repo, build, test, demo, quick check of its property, undo
    python3 tools/seeds.py demo  [ID...]     the same without the check
"""
import json, os, re, subprocess, sys, tempfile, shutil, time

REPO = os.environ.get("SEED_REPO", "/repo")  # a copy, while something else uses /repo
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "seeded")
BASE = "e467b5e"

FLAGS = "-std=gnu++20 -w -O1 -DBOOST_ALLOW_DEPRECATED_HEADERS"
LIB = """#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is not
HERE=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d /tmp/kep3demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
g++ %s $HERE_INC -I"$R/include" -I"$R/_build/include" -o "$W/demo" "$HERE/demo.cpp" %s || exit 3
%s"$W/demo"
"""

PYLIB = """#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is not. Builds the Python package against the stand-ins beside this file.
HERE=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d /tmp/kep3demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
PY=/opt/veriftools/pyvenv/bin/python
INC=$($PY -c "import sysconfig; print(sysconfig.get_paths()['include'])")
mkdir -p "$W/pkg" "$W/o"
cp -r "$R/pykep" "$W/pkg/pykep"
echo '__version__ = "0"' > "$W/pkg/pykep/_version.py"
SRC=$(cd "$R" && ls pykep/*.cpp && find src -name '*.cpp')
for s in $SRC; do echo "$R/$s $W/o/$(echo $s | tr / _).o"; done | xargs -P 8 -L 1 sh -c 'g++ -std=gnu++20 -w -O0 -fPIC -DBOOST_ALLOW_DEPRECATED_HEADERS -DVF_BINARY_ARCHIVES -I"'"$HERE"'/pyshim" -I"'"$HERE"'/shims" -I"'"$R"'/include" -I"'"$R"'/_build/include" -I"'"$INC"'" -c "$0" -o "$1"' || exit 3
g++ -shared -o "$W/pkg/pykep/core.so" "$W"/o/*.o -lfmt -lboost_serialization -llapack -lblas -lpthread || exit 3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$W/pkg:$HERE/pyshim/stubs" timeout 100 $PY -W ignore "$HERE/demo.py"
"""

SEEDS = {}


def seed(id, prop, needs, breaks, edits, demo, sources=None, shims=False, run="", flags="", demo_sh=None, files=None, pykep=False):
    SEEDS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, sources=sources, shims=shims, run=run, flags=flags, demo_sh=demo_sh, files=files or {}, pykep=pykep)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def apply_edits(root, edits):
    for f, old, new in edits:
        p = os.path.join(root, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))


def write(id):
    s = SEEDS[id]
    assert not sh("git -C %s status --porcelain -uno" % REPO).stdout.strip(), "repo not clean"
    d = os.path.join(OUT, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        apply_edits(REPO, s["edits"])
        diff = sh("git -C %s diff" % REPO).stdout
    finally:
        sh("git -C %s checkout -- ." % REPO)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if not [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]:
        print("  NOTE %s: removes no line: mind whose lines are around" % id)
    # every removed line must be the original repository's
    f = None
    n = 0
    own = set(sh("git -C %s rev-list %s..HEAD" % (REPO, BASE)).stdout.split())
    blame = {}
    for line in diff.splitlines():
        if line.startswith("--- "):
            f = line[6:]
            if f not in blame:
                blame[f] = [l.split()[0].lstrip("^") for l in sh("git -C %s blame -l -s HEAD -- %s" % (REPO, f)).stdout.splitlines()]
        m = re.match(r"@@ -(\d+)", line)
        if m:
            n = int(m.group(1))
            continue
        if line.startswith("-") and not line.startswith("---"):
            if any(o.startswith(blame[f][n - 1]) or blame[f][n - 1].startswith(o[:39]) for o in own):
                print("  NOTE %s: removes a line of my own: %s" % (id, line))
        if line.startswith((" ", "-")) and not line.startswith("---"):
            n += 1
    if s["demo"] is not None:
        open(os.path.join(d, "demo.py" if s["pykep"] else "demo.cpp"), "w").write(s["demo"].lstrip())
    for name, text in s["files"].items():
        open(os.path.join(d, name), "w").write(text)
    if s["pykep"]:
        text = PYLIB
        shutil.copytree(VERIF + "/pyshim", os.path.join(d, "pyshim"), ignore=shutil.ignore_patterns("__pycache__", "ref.cpp"))
        shutil.copytree(VERIF + "/shims", os.path.join(d, "shims"))
    elif s["demo_sh"]:
        text = s["demo_sh"]
    else:
        if s["sources"] is None:
            link = '"$R/_build/libkep3.so" -Wl,-rpath,"$R/_build" -lfmt -lboost_serialization -llapack -lblas -lpthread'
        else:
            link = " ".join('"$R/%s"' % x for x in s["sources"]) + " -lfmt -lboost_serialization -llapack -lblas -lpthread"
        text = LIB % (FLAGS + " " + s["flags"], link, s["run"])
        text = text.replace("$HERE_INC ", '-I"$HERE/shims" ' if s["shims"] else "")
    if s["shims"]:
        shutil.copytree(VERIF + "/shims", os.path.join(d, "shims"))
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(text)
    os.chmod(p, 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()


def run_tests():
    out = tempfile.mktemp(suffix=".json")
    sh("bash /opt/vp/test.sh %s" % out)
    r = open(out).read()
    os.unlink(out)
    return json.loads(r)


def build():
    if REPO == "/repo":
        return sh("bash /opt/vp/build.sh")
    if not os.path.exists(REPO + "/_build/build.ninja"):
        sh("CC=gcc CXX=g++ cmake -S /opt/vp/cmake -B %s/_build -G Ninja -DKEP3_ROOT=%s -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_C_FLAGS=-Wno-error" % (REPO, REPO))
    return sh("ninja -C %s/_build -j8" % REPO)


def try_(id, check=True):
    s = SEEDS[id]
    d = os.path.join(OUT, id)
    res = {}
    base = sh("bash %s/demo.sh" % d, cwd=REPO)
    res["demo-clean"] = base.returncode
    if base.returncode:
        print(base.stdout[-500:], base.stderr[-1500:])
    a = sh("git -C %s apply %s/patch.diff" % (REPO, d))
    assert a.returncode == 0, a.stderr
    try:
        b = build()
        res["build"] = b.returncode
        if b.returncode:
            print(b.stdout[-1500:])
        t = run_tests() if REPO == "/repo" else {"failed": []}
        res["tests"] = t.get("failed") if isinstance(t, dict) else t
        dm = sh("timeout 300 bash %s/demo.sh" % d, cwd=REPO)
        res["demo-patched"] = dm.returncode
        print("   demo:", dm.stdout.strip()[-200:], dm.stderr.strip()[-300:])
        if check:
            t0 = time.time()
            c = sh("KEP3_REPO=%s VERIF_SEED=1 VERIF_TIER=quick python3 run.py %s quick" % (REPO, s["prop"]), cwd=VERIF)
            res["check"] = c.returncode
            res["check-s"] = round(time.time() - t0)
            v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
            print("   ", (v or [c.stdout[-300:]])[0][:300])
    finally:
        sh("git -C %s checkout -- ." % REPO)
        build()
    ok = res["demo-clean"] == 0 and res["build"] == 0 and not res["tests"] and res["demo-patched"] != 0
    print(id, s["prop"], "VALID" if ok else "INVALID", ("CAUGHT" if res.get("check") == 1 else "MISSED") if check else "", res)


def main():
    cmd = sys.argv[1]
    ids = sys.argv[2:] or sorted(SEEDS)
    for i in ids:
        if cmd == "write":
            write(i)
        elif cmd == "try":
            write(i)
            try_(i)
        elif cmd == "demo":
            write(i)
            try_(i, False)
