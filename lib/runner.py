"""Runs the monitors of one property, decides, writes the evidence and the replay files."""
import concurrent.futures as cf, json, os, re, signal, subprocess, sys, threading, time, struct, shutil
from . import build as B, pyenv

VERIF = B.VERIF
NPROC = 8
WALL_SHARD = 780  # seconds: generous, its firing is inconclusive


class Job:
    """A monitor program of one configuration. kind: 'cpp' or 'py'."""

    def __init__(self, harness, quick, thorough, config="opt", opts=(), build=None, kind="cpp", name=None, shards=NPROC, cpu=30, leaks=True, wrap=()):
        self.harness, self.quick, self.thorough, self.config = harness, quick, thorough, config
        self.opts, self.build, self.kind, self.shards, self.cpu = list(opts), dict(build or {}), kind, shards, cpu
        self.name = name or "%s-%s" % (harness, config)
        self.leaks = leaks
        self.wrap = list(wrap)  # a command the monitor runs under (valgrind)

    def command(self):
        if self.kind == "py":
            self.package = pyenv.ensure(self.config)
            return [pyenv.PYTHON, "-W", "ignore", os.path.join(VERIF, "harness", self.harness + ".py")]
        return self.wrap + [B.ensure(self.config, self.harness, **self.build)]


def env(job):
    e = dict(os.environ)
    e.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", TZ=e.get("TZ", "UTC"), LC_ALL="C", VERIF_DIR=VERIF, VERIF_BUILD=B.BUILD,
             KEP3_REPO=B.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    if job.kind == "py":
        e["MALLOC_PERTURB_"] = "165"  # freed memory does not keep its values: arrays that outlive their buffer show
        e["PYTHONPATH"] = ":".join([job.package, os.path.join(pyenv.SHIM, "stubs"), os.path.join(VERIF, "harness")])
        if pyenv.preload(job.config):
            e.update(LD_PRELOAD=pyenv.preload(job.config), PYTHONMALLOC="malloc")
    e["ASAN_OPTIONS"] = "exitcode=98:abort_on_error=0:halt_on_error=1:detect_leaks=%d:detect_stack_use_after_return=1:strict_init_order=1:check_initialization_order=1:allocator_may_return_null=0:max_free_fill_size=65536:free_fill_byte=165" % (1 if job.leaks else 0)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:second_deadlock_stack=1:history_size=4"
    return e


def beacon(out):
    try:
        with open(out + ".beacon", "rb") as f:
            return struct.unpack("<qq", f.read(16))
    except Exception:
        return (-1, 0)


SAN_RE = re.compile(r"(ERROR: AddressSanitizer|ERROR: LeakSanitizer|runtime error:|WARNING: ThreadSanitizer|ERROR: ThreadSanitizer|SUMMARY: )")


def classify(rc, err):
    """A stable key for an abnormal end."""
    if rc == 97 or "VF-HANG" in err or rc == -signal.SIGVTALRM:
        return "hang"
    m = re.search(r"runtime error: (.*)", err)
    if m:
        where = re.search(r"([A-Za-z0-9_./-]+\.(?:hpp|cpp|h|c)):\d+(?::\d+)?: runtime error", err)
        txt = re.sub(r"-?\d[\d.e+-]*|-?nan|-?inf|0x[0-9a-f]+", "#", m.group(1))[:80]
        return "ubsan:%s:%s" % (os.path.basename(where.group(1)) if where else "?", txt)
    m = re.search(r"==\d+== (Conditional jump|Use of uninitialised|Invalid read|Invalid write|Invalid free|Mismatched free|Syscall param|Source and destination overlap)", err)
    if m:
        fn = re.search(r"(?:at|by) 0x[0-9A-F]+: (kep3::[\w:]+)", err[m.start():])
        return "valgrind:%s:%s" % (m.group(1), fn.group(1) if fn else "")
    m = re.search(r"SUMMARY: (\w+)Sanitizer: (\S+)", err)
    if m:
        fn = ""
        for l in err.splitlines():
            q = re.search(r"#\d+ \S+ in (kep3::[\w:]+)", l)
            if q:
                fn = q.group(1)
                break
        return "%s:%s:%s" % (m.group(1).lower() + "san", m.group(2), fn)
    if rc < 0:
        try:
            return "killed:" + signal.Signals(-rc).name
        except ValueError:
            return "killed:%d" % -rc
    if rc == 134:
        return "abort"
    return "exit:%d" % rc


QUICK_WALL = 800  # seconds for all jobs of a quick check


class Control:
    """When to stop: a quick check that has seen abnormal ends (crashes, sanitizer reports, hangs) need not collect more of them."""

    def __init__(self, tier):
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.stop = threading.Event()
        self.abnormal = 0
        self.lock = threading.Lock()

    def left(self, wall):
        return max(1, min(wall, QUICK_WALL - (time.time() - self.t0))) if self.quick else wall

    def saw(self):
        with self.lock:
            self.abnormal += 1
            if self.quick and (self.abnormal >= 4 or time.time() - self.t0 > 240):
                self.stop.set()


def one(cmd, job, seed, first, last, step, out, cpu, wall=WALL_SHARD, opts=None, stop=None):
    args = cmd + ["seed=%d" % seed, "first=%d" % first, "last=%d" % last, "step=%d" % step, "out=" + out, "cpu=%g" % cpu] + (job.opts if opts is None else opts)
    if job.config in ("san", "tsan", "vg"):
        args.append("sanitize=1")
    end = time.time() + wall
    with open(out + ".err", "w+b") as ef:
        p = subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=ef, env=env(job), cwd=os.path.dirname(out))
        rc = None
        try:
            while rc is None:
                try:
                    rc = p.wait(timeout=0.5)
                except subprocess.TimeoutExpired:
                    if stop is not None and stop.is_set():
                        rc = "stopped"
                    elif time.time() > end:
                        rc = "wall"
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
        ef.seek(0)
        return rc, ef.read().decode("utf8", "replace"), args


class Result:
    def __init__(self):
        self.evaluations = self.nontrivial = 0
        self.counts, self.maxima, self.vkeys = {}, {}, {}
        self.hashes, self.samples, self.violations, self.errors, self.notes = set(), [], [], [], []

    def add(self, path, job, cmd, seed):
        if not os.path.exists(path):
            return False
        done = False
        for l in open(path):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("summary"):
                done = True
                self.evaluations += d["evaluations"]
                self.nontrivial += d["nontrivial"]
                for k, v in d["counts"].items():
                    self.counts[k] = self.counts.get(k, 0) + v
                for k, v in d["vkeys"].items():
                    self.vkeys[k] = self.vkeys.get(k, 0) + v
                for k, v in d["maxima"].items():
                    v = float(v)
                    if k not in self.maxima or not v <= self.maxima[k]:
                        self.maxima[k] = v
                self.hashes.update("%s%s" % (job.harness, h) for h in d["hashes"])
                self.samples += d["samples"][:1]
            else:
                d.update(job=job.name, harness=job.harness, config=job.config, seed=seed)
                self.violations.append(d)
        return done


def run_job(job, seed, tier, rundir, res, ctl):
    n = job.quick if tier == "quick" else job.thorough
    cmd = job.command()

    def shard(s):
        first, k, found = s, 0, []
        parts = []
        while first < n:
            out = os.path.join(rundir, "%s.%d.%d.jsonl" % (job.name, s, k))
            rc, err, args = one(cmd, job, seed, first, n, job.shards, out, job.cpu, wall=ctl.left(WALL_SHARD), stop=ctl.stop)
            parts.append(out)
            if rc == 0 or rc == "stopped":
                break
            case, phase = beacon(out)
            k += 1
            if rc == "wall":
                found.append(("inconclusive", "wall-clock watchdog fired at case %d" % case, None))
                break
            if rc == 2 or case < -1:
                found.append(("error", "exit %s: %s" % (rc, err[-2000:]), None))
                break
            if case == -1:  # after the last case: leaks and races reported at exit
                if "LeakSanitizer has encountered a fatal error" in err:
                    found.append(("note", "leak detection unavailable in this environment", None))
                    break
                found.append(("violation", classify(rc, err), dict(case=-1, first=first, last=n, step=job.shards, stderr=err[-6000:])))
                ctl.saw()
                break
            key = classify(rc, err)
            # Confirm on the case alone, with twice the CPU time for a hang.
            out2 = os.path.join(rundir, "%s.%d.%d.confirm.jsonl" % (job.name, s, k))
            rc2, err2, _ = one(cmd, job, seed, case, case + 1, 1, out2, job.cpu * 2, wall=ctl.left(max(300, job.cpu * 6)), stop=ctl.stop)
            if key == "hang" and rc2 in (0, "wall", "stopped"):
                found.append(("note", "case %d exceeded %g CPU s once and not again" % (case, job.cpu), None))
            else:
                found.append(("violation", key, dict(case=case, alone=(rc2 != 0), stderr=(err if rc2 in (0, "wall", "stopped") else err2)[-6000:],
                                                     first=first, last=n, step=job.shards)))
                ctl.saw()
            first = case + job.shards
            if k > 12:
                found.append(("note", "shard %d stopped after %d abnormal ends" % (s, k), None))
                break
        return parts, found

    with cf.ThreadPoolExecutor(max_workers=NPROC) as ex:
        for parts, found in ex.map(shard, range(min(job.shards, max(n, 1)))):
            for p in parts:
                res.add(p, job, cmd, seed)
            for kind, key, info in found:
                if kind == "violation":
                    res.vkeys[key] = res.vkeys.get(key, 0) + 1
                    res.violations.append(dict(violation=key, what="abnormal end: " + key, case=info["case"], input=info, job=job.name,
                                               harness=job.harness, config=job.config, seed=seed))
                elif kind == "error":
                    res.errors.append("%s: %s" % (job.name, key))
                elif kind == "inconclusive":
                    res.errors.append("%s: inconclusive: %s" % (job.name, key))
                else:
                    res.notes.append("%s: %s" % (job.name, key))


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def matches(k, prop, v):
    if k["property"] != prop or k["key"] != v["violation"]:
        return False
    for f, x in k.get("input", {}).items():
        y = v.get("input", {})
        for part in f.split("."):
            y = y.get(part) if isinstance(y, dict) else None
        if y != x:
            return False
    if "harness" in k and k["harness"] != v["harness"]:
        return False
    return True


def check(spec, prop, tier, seed):
    t0 = time.time()
    rundir = os.path.join(B.BUILD, "run", "%s-%s" % (prop, tier))
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    res = Result()
    per_job = {}
    ctl = Control(tier)
    for job in spec["jobs"]:
        if tier == "quick" and ctl.abnormal:
            res.notes.append("not run after abnormal ends: " + job.name)
            continue
        t1, e0, n0 = time.time(), res.evaluations, res.nontrivial
        n = job.quick if tier == "quick" else job.thorough
        if not n:
            continue
        try:
            run_job(job, seed, tier, rundir, res, ctl)
        except B.BuildError as e:
            print("ERROR: " + "\n".join([l for l in str(e).splitlines() if "error" in l or "compiling" in l][:20]) + "\n" + str(e)[-1500:])
            res.errors.append("build: " + str(e)[-1500:])
            break
        per_job[job.name] = dict(evaluations=res.evaluations - e0, nontrivial=res.nontrivial - n0, wall_s=round(time.time() - t1, 1))
    kf = known_findings()
    new, seen = [], {}
    for v in res.violations:
        for i, k in enumerate(kf["known"]):
            if matches(k, prop, v):
                seen[i] = seen.get(i, 0) + 1
                break
        else:
            new.append(v)
    listed = sum(1 for v in res.violations)
    for i, k in enumerate(kf["known"]):
        if k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k["what"], "observed %d times" % seen[i] if i in seen else "not hit in this run"))
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    lines, bykey = [], {}
    for v in new:
        bykey.setdefault(v["violation"], []).append(v)
    for n, (key, vs) in enumerate(sorted(bykey.items(), key=lambda kv: -len(kv[1]))):
        v = vs[0]
        p = os.path.join(rdir, "%s-%d.json" % (prop, n))
        v = dict(v, property=prop, tier=tier, how="python3 %s/run.py replay %s" % (VERIF, p), occurrences=res.vkeys.get(key, len(vs)))
        json.dump(v, open(p, "w"), indent=1)
        if n < 8:
            lines.append("VIOLATION property=%s replay=%s" % (prop, p))
            print("  %s (%d times): %s" % (key, v["occurrences"], str(v["what"])[:300]))
            print("    input: %s" % json.dumps(v.get("input"))[:700])
    cov = dict(evaluations=res.evaluations, distinct_nontrivial=len(res.hashes), rule=spec["rule"], samples=res.samples[:6] or ["none"],
               oracle_decisions={k[8:]: v for k, v in sorted(res.counts.items()) if k.startswith("decided:")},
               events={k: v for k, v in sorted(res.counts.items()) if not k.startswith("decided:")},
               largest_error_over_bound={k: v for k, v in sorted(res.maxima.items())},
               jobs=per_job, notes=res.notes, errors=res.errors, violation_keys=res.vkeys)
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"), coverage=cov, assumptions=spec.get("assumptions", []),
              wall_s=round(time.time() - t0, 1), violations=len(new))

    def clean(x):
        if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
            return str(x)
        if isinstance(x, dict):
            return {k: clean(v) for k, v in x.items()}
        if isinstance(x, list):
            return [clean(v) for v in x]
        return x

    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(clean(ev), f, indent=1)
    print("%s %s: %d evaluations, %d distinct non-trivial, %d oracle decisions, %d new violations, %.1f s" % (
        prop, tier, res.evaluations, len(res.hashes), sum(cov["oracle_decisions"].values()), len(new), time.time() - t0))
    for n_ in res.notes[:10]:
        print("note: " + n_)
    for l in lines:
        print(l)
    if lines:
        return 1
    if res.errors:
        for e in res.errors[:10]:
            print("ERROR: " + e)
        return 2
    if res.violations and not seen:
        return 2
    missing = [o for o in spec.get("must_decide", []) if not any(k == o or k.startswith(o) for k in cov["oracle_decisions"])]
    if not res.hashes or missing:
        print("ERROR: nothing observed (%s)" % (", ".join(missing) or "no non-trivial case"))
        return 2
    return 0


def replay(specs, path):
    v = json.load(open(path))
    spec = specs[v["property"]]
    job = [j for j in spec["jobs"] if j.name == v["job"]][0]
    cmd = job.command()
    out = os.path.join(B.BUILD, "run", "replay.jsonl")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if v["case"] >= 0 and v.get("input", {}).get("alone", True):
        rng = (v["case"], v["case"] + 1, 1)
    else:
        rng = (v["input"]["first"], v["input"]["last"], v["input"]["step"])
    rc, err, args = one(cmd, job, v["seed"], *rng, out, job.cpu * 2)
    print(" ".join(args))
    print(err[-6000:])
    if os.path.exists(out):
        print(open(out).read()[:6000])
    r = Result()
    r.add(out, job, cmd, v["seed"])
    bad = rc != 0 or r.violations
    print("replay: exit %s, %s" % (rc, "violation reproduced" if bad else "no violation"))
    return 1 if bad else 0
