"""The Python monitors' counterpart of common.hpp: deterministic cases, recording of what was observed, attribution of crashes and hangs."""
import hashlib, json, math, mmap, os, random, signal, struct, sys, traceback


class Mon:
    def __init__(self, argv):
        self.seed, self.first, self.last, self.step, self.out, self.cpu, self.extra = 1, 0, 0, 1, "", 60.0, {}
        for a in argv:
            k, _, v = a.partition("=")
            if k in ("seed", "first", "last", "step"):
                setattr(self, k, int(v))
            elif k == "out":
                self.out = v
            elif k == "cpu":
                self.cpu = float(v)
            else:
                self.extra[k] = v or "1"
        self.sanitizers_decide = self.extra.get("sanitize") == "1" and "own" not in self.extra
        self.f = open(self.out, "w") if self.out else sys.stdout
        self.cur, self.evaluations, self.nontrivial = -1, 0, 0
        self.counts, self.maxima, self.vkeys, self.hashes, self.samples, self.violations = {}, {}, {}, set(), [], 0
        self.b = None
        if self.out:
            fd = os.open(self.out + ".beacon", os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
            os.ftruncate(fd, 64)
            self.b = mmap.mmap(fd, 64)
            os.close(fd)

    def beacon(self, i):
        if self.b is not None:
            self.b[:16] = struct.pack("<qq", i, 0)

    def ev(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def nontriv(self, *what):
        self.nontrivial += 1
        if len(self.hashes) < 150000:
            self.hashes.add(int.from_bytes(hashlib.blake2b(repr(what).encode(), digest_size=8).digest(), "little") & ((1 << 53) - 1))

    def sample(self, fn):
        if len(self.samples) < 3:
            self.samples.append(fn())

    def violate(self, key, what, inp):
        if self.sanitizers_decide:
            self.ev("oracle-not-deciding-here:" + key)
            return
        self.violations += 1
        self.vkeys[key] = self.vkeys.get(key, 0) + 1
        if self.vkeys[key] <= 5:
            self.f.write(json.dumps({"violation": key, "what": what, "case": self.cur, "input": clean(inp)}) + "\n")
            self.f.flush()

    def check(self, oracle, err, bound, inp, note=""):
        self.ev("decided:" + oracle)
        err = float(err)
        bound = float(bound)
        ratio = err / bound if bound else (0.0 if err == 0 else math.inf)
        if oracle not in self.maxima or not ratio <= self.maxima[oracle]:
            self.maxima[oracle] = ratio
        if not ratio <= 1:
            self.violate(oracle, "%s: error %.3e exceeds bound %.3e %s" % (oracle, err, bound, note), inp() if callable(inp) else inp)
            return False
        return True

    def require(self, oracle, ok, inp, note=""):
        self.ev("decided:" + oracle)
        if not ok:
            self.violate(oracle, oracle + " " + note, inp() if callable(inp) else inp)
        return bool(ok)

    def raises(self, oracle, exc, fn, inp, note=""):
        """fn() must raise exc (a class or a tuple of classes)."""
        try:
            fn()
        except exc:
            return self.require(oracle, True, inp)
        except Exception as e:
            return self.require(oracle, False, inp, note + " raised %s: %s" % (type(e).__name__, e))
        return self.require(oracle, False, inp, note + " raised nothing")

    def finish(self):
        self.f.write(json.dumps({"summary": True, "evaluations": self.evaluations, "nontrivial": self.nontrivial, "violations": self.violations,
                                 "counts": self.counts, "maxima": {k: num(v) for k, v in self.maxima.items()}, "vkeys": self.vkeys,
                                 "samples": [clean(s) for s in self.samples], "hashes": sorted(self.hashes)}) + "\n")
        self.f.flush()


def num(x):
    return x if math.isfinite(x) else ("nan" if math.isnan(x) else ("inf" if x > 0 else "-inf"))


def clean(x):
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return x
    if isinstance(x, float):
        return num(float(x))
    if hasattr(x, "tolist"):
        return clean(x.tolist())
    return repr(x)[:300]


def drive(salt, case, setup=None):
    m = Mon(sys.argv[1:])
    signal.signal(signal.SIGVTALRM, signal.SIG_DFL)  # the runner reads that death as a hang
    if setup:
        setup(m)
    for i in range(m.first, m.last, m.step):
        m.cur = i
        m.beacon(i)
        rng = random.Random("%d/%d/%d" % (m.seed, salt, i))
        signal.setitimer(signal.ITIMER_VIRTUAL, m.cpu)
        m.evaluations += 1
        try:
            case(m, rng, i)
        except Exception as e:
            m.violate("unexpected-exception:" + type(e).__name__, "exception out of a case: " + "".join(traceback.format_exception(e))[-1500:], {"case": i})
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    m.beacon(-1)
    m.finish()


def logu(rng, a, b):
    return math.exp(rng.uniform(math.log(a), math.log(b)))


def unit(rng):
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in v))
        if n > 1e-3:
            return [x / n for x in v]
