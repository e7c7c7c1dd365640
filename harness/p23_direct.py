"""P23: the direct low-thrust problems present the leg the decision vector encodes."""
import contextlib, copy, io, math, pickle, re
import numpy as np
import pykep as pk
import pymon
from pymon import logu, unit

DAY = 86400.0


def norm(v):
    return math.sqrt(math.fsum(float(x) * float(x) for x in v))


def states(rng, size, mu):
    """A position and a velocity of an ellipse about mu."""
    r = size * logu(rng, 0.5, 2)
    u = unit(rng)
    while True:
        w = unit(rng)
        d = sum(a * b for a, b in zip(u, w))
        if abs(d) < 0.5:
            break
    v = math.sqrt(mu / r) * rng.uniform(0.7, 1.2)
    return [[a * r for a in u], [a * v for a in w]]


def make(rng):
    si = rng.random() < 0.4
    mu = pk.MU_SUN if si else logu(rng, 1e12, 1e21)
    size = pk.AU if si else (mu * (logu(rng, 30, 1000) * DAY / 6.28) ** 2) ** (1 / 3)
    v = math.sqrt(mu / size)
    period = 2 * math.pi * size / v
    tof = period * logu(rng, 0.05, 1.0)
    ms = logu(rng, 10, 5000)
    T = ms * mu / size ** 2 * logu(rng, 1e-3, 0.3)
    isp = T * tof / (ms * 9.80665) / logu(rng, 0.01, 0.5)
    p = {"kind": rng.choice(["p2p", "pl2pl"]), "mu": mu, "size": size, "v": v, "ms": ms, "max_thrust": T, "isp": isp, "tof": tof / DAY, "nseg": rng.choice([1, 2, 3, 5, 8, 13, 20]),
         "cut": rng.choice([0.0, 1.0, 0.5, rng.random(), rng.random()]), "msc": ms * logu(rng, 0.1, 10), "rsc": size * logu(rng, 0.1, 10), "vsc": v * logu(rng, 0.1, 10),
         "tb": [tof / DAY * 0.5, tof / DAY * 1.5], "mb": [ms * 0.4, ms], "g": rng.random() < 0.7}
    if p["kind"] == "p2p":
        p["rvs"], p["rvf"] = states(rng, size, mu), states(rng, size, mu)
    else:
        p["jpl"] = si and rng.random() < 0.5
        if p["jpl"]:
            a, b = rng.sample(["mercury", "venus", "earth", "mars", "jupiter"], 2)
            p["pls"], p["plf"] = (pk.planet(pk.udpla.jpl_lp(n)) for n in (a, b))
            p["names"] = [a, b]
        else:
            e = [[size * logu(rng, 0.5, 2), rng.uniform(0, 0.4), rng.uniform(0, 1), rng.uniform(0, 6), rng.uniform(0, 6), rng.uniform(0, 6)] for _ in range(2)]
            p["names"] = e
            p["pls"], p["plf"] = (pk.planet(pk.udpla.keplerian(pk.epoch(rng.uniform(-2000, 2000)), q, mu, "k%d" % k)) for k, q in enumerate(e))
        t = rng.uniform(-4000, 4000)
        p["t0"] = [t, t + logu(rng, 1, 1000)]
        p["vinfs"], p["vinff"] = (rng.choice([0.0, 3.0, v / 1000 * rng.uniform(0, 0.3)]) for _ in range(2))
    return p


def build(p):
    kw = dict(ms=p["ms"], mu=p["mu"], max_thrust=p["max_thrust"], isp=p["isp"], tof_bounds=list(p["tb"]), mf_bounds=list(p["mb"]), nseg=p["nseg"], cut=p["cut"],
              mass_scaling=p["msc"], r_scaling=p["rsc"], v_scaling=p["vsc"], with_gradient=p["g"])
    if p["kind"] == "p2p":
        return pk.trajopt.direct_point2point(rvs=copy.deepcopy(p["rvs"]), rvf=copy.deepcopy(p["rvf"]), **kw)
    return pk.trajopt.direct_pl2pl(pls=p["pls"], plf=p["plf"], t0_bounds=list(p["t0"]), vinfs=p["vinfs"], vinff=p["vinff"], **kw)


def show(p, x=None):
    d = {k: v for k, v in p.items() if k not in ("pls", "plf")}
    d["x"] = x
    return d


def chromosome(p, rng):
    th = []
    for _ in range(p["nseg"]):
        u, s = unit(rng), rng.choice([rng.uniform(0.01, 1), 1.0, rng.uniform(1, 1.4)])
        th += [max(-1.0, min(1.0, a * s)) for a in u]
    mf = p["ms"] * rng.uniform(0.5, 1)
    tof = rng.uniform(*p["tb"])
    if p["kind"] == "p2p":
        return [mf] + th + [tof]
    vs = [rng.uniform(-1, 1) * (p["vinfs"] * 1000 or p["v"] * 0.05) for _ in range(3)]
    vf = [rng.uniform(-1, 1) * (p["vinff"] * 1000 or p["v"] * 0.05) for _ in range(3)]
    return [rng.uniform(*p["t0"]), mf] + vs + vf + th + [tof]


def leg(p, x):
    """The leg encoded by x, by the documented layout."""
    x = [float(a) for a in x]
    if p["kind"] == "p2p":
        rvs, rvf, mf, th = p["rvs"], p["rvf"], x[0], x[1:-1]
    else:
        rs, vs = p["pls"].eph(x[0])
        rf, vf = p["plf"].eph(x[0] + x[-1])
        rvs, rvf, mf, th = [rs, [a + b for a, b in zip(vs, x[2:5])]], [rf, [a + b for a, b in zip(vf, x[5:8])]], x[1], x[8:-1]
    return pk.leg.sims_flanagan(rvs=rvs, ms=p["ms"], throttles=th, rvf=rvf, mf=mf, tof=x[-1] * DAY, max_thrust=p["max_thrust"], isp=p["isp"], mu=p["mu"], cut=p["cut"])


def expected(p, x):
    l = leg(p, x)
    sc = [p["rsc"]] * 3 + [p["vsc"]] * 3 + [p["msc"]]
    ceq = [float(a) / s for a, s in zip(l.compute_mismatch_constraints(), sc)]
    cin = [float(a) for a in l.compute_throttle_constraints()]
    mf = x[0] if p["kind"] == "p2p" else x[1]
    if p["kind"] == "pl2pl":
        cin += [(sum(a * a for a in x[2:5]) - (p["vinfs"] * 1000) ** 2) / p["vsc"] ** 2, (sum(a * a for a in x[5:8]) - (p["vinff"] * 1000) ** 2) / p["vsc"] ** 2]
    return [-mf / p["msc"]] + ceq + cin


def scales(p, x):
    """The size of the quantities each row compares."""
    r = [p["ms"] / p["msc"]] + [4 * p["size"] / p["rsc"]] * 3 + [4 * p["v"] / p["vsc"]] * 3 + [p["ms"] / p["msc"]] + [1.0] * p["nseg"]
    if p["kind"] == "pl2pl":
        big = 1e-30 + max(sum(a * a for a in x[2:8]), (p["vinfs"] * 1000) ** 2, (p["vinff"] * 1000) ** 2) / p["vsc"] ** 2
        r += [big, big]
    return r


def case(m, rng, i):
    p = make(rng)
    udp = build(p)
    n = p["nseg"]
    rows = 1 + 7 + n + (2 if p["kind"] == "pl2pl" else 0)
    dim = 3 * n + (2 if p["kind"] == "p2p" else 9)
    inp = lambda: show(p)
    lb, ub = udp.get_bounds()
    lo, hi = [p["mb"][0]], [p["mb"][1]]
    if p["kind"] == "pl2pl":
        a, b = p["vinfs"] * 1000, p["vinff"] * 1000
        lo, hi = [p["t0"][0], p["mb"][0]] + [-a] * 3 + [-b] * 3, [p["t0"][1], p["mb"][1]] + [a] * 3 + [b] * 3
    lo, hi = lo + [-1] * 3 * n + [p["tb"][0]], hi + [1] * 3 * n + [p["tb"][1]]
    m.require("bounds", len(lb) == dim and len(ub) == dim and [float(v) for v in lb] == lo and [float(v) for v in ub] == hi, inp)
    m.require("constraint-counts", udp.get_nec() == 7 and udp.get_nic() == rows - 8, inp)
    m.require("has-gradient", udp.has_gradient() == p["g"], inp)
    sp = [tuple(int(a) for a in q) for q in udp.gradient_sparsity()]
    m.require("sparsity:well-formed", len(set(sp)) == len(sp) and sp == sorted(sp) and all(0 <= a < rows and 0 <= b < dim for a, b in sp), inp)
    hist = []
    work = None
    if rng.random() < 0.4:  # a work array that is overwritten with each new vector
        work = rng.choice([np.zeros(dim), [0.0] * dim])
    for _ in range(rng.choice([1, 2, 3])):
        x = chromosome(p, rng)
        inp = lambda: show(p, x)
        y = np.array(x) if rng.random() < 0.6 else list(x)
        if work is not None:
            work[:] = x
            y = work
        try:
            want = expected(p, x)
        except Exception as e:
            m.ev("no-leg:" + type(e).__name__)
            m.raises("no-leg:raises", Exception, lambda: udp.fitness(y), inp)
            continue
        f = [float(v) for v in udp.fitness(y)]
        sc = scales(p, x)
        if not m.require("fitness:dimension", len(f) == rows, inp):
            return
        for k in range(rows):
            name = "objective" if k == 0 else "mismatch" if k < 8 else "throttles" if k < 8 + n else "departure-vinf" if k == 8 + n else "arrival-vinf"
            m.check("fitness:" + name, abs(f[k] - want[k]), 1e-12 * (sc[k] + abs(want[k])), lambda: dict(inp(), row=k), "got %r want %r" % (f[k], want[k]))
        m.require("input-unchanged", [float(v) for v in y] == x, inp)
        hist.append((x, f))
        if rng.random() < 0.5:
            gradient(m, rng, p, udp, x, y, sp, rows, dim, sc, inp)
            m.require("fitness:after-gradient", [float(v) for v in udp.fitness(y)] == f, inp)
        if rng.random() < 0.2:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                udp.pretty(y)
            t = out.getvalue()
            q = re.search(r"Number of segments:\s*(\d+)", t)
            m.require("pretty", bool(q) and int(q.group(1)) == n, inp)
            m.require("fitness:after-pretty", [float(v) for v in udp.fitness(y)] == f, inp)
        m.nontriv(p["kind"], n, x)
        m.sample(lambda: show(p, x))
    # the same value whatever was evaluated before, on this problem, on a copy, on a new one
    for x, f in hist:
        inp = lambda: show(p, x)
        for name, u in (("again", udp), ("new-problem", build(p)), ("copied-problem", copy.deepcopy(udp)), ("pickled-problem", pickle.loads(pickle.dumps(udp)))):
            g = [float(v) for v in u.fitness(np.array(x))]
            m.require("fitness:" + name, all(abs(a - b) <= 1e-13 * s for a, b, s in zip(f, g, scales(p, x))), inp)


def steps(p):
    v = p["v"]
    per = 2 * math.pi * p["size"] / v / DAY
    h = [p["ms"]] + [0.3] * (3 * p["nseg"]) + [p["tof"]]
    return h if p["kind"] == "p2p" else [per * 0.2] + [p["ms"]] + [v] * 6 + h[1:]


def gradient(m, rng, p, udp, x, y, sp, rows, dim, sc, inp):
    g = [float(v) for v in udp.gradient(y)]
    if not m.require("gradient:length", len(g) == len(sp), inp):
        return
    dense = {}
    for (a, b), v in zip(sp, g):
        dense[a, b] = v
    h = steps(p)
    cols = list(range(dim))
    if dim > 12:
        cols = sorted(set(rng.sample(range(dim), 8) + [0, 1, dim - 1] + ([2, 5] if p["kind"] == "pl2pl" else [])))
    for j in cols:
        q = p
        if p["kind"] == "pl2pl" and j in (0, dim - 1) and p["jpl"]:
            # documented: as if the planets were on Keplerian orbits about mu
            q = dict(p)
            for name, t in (("pls", x[0]), ("plf", x[0] + x[-1])):
                q[name] = pk.planet(pk.udpla.keplerian(when=pk.epoch(t), posvel=p[name].eph(pk.epoch(t)), mu_central_body=p["mu"]))

        def f(d):
            z = list(x)
            z[j] += d
            return np.array(expected(q, z))

        s = 4e-3 * h[j]
        R = [[(f(s / 2 ** k) - f(-s / 2 ** k)) / (2 * s / 2 ** k)] for k in range(6)]
        for a in range(1, 6):
            for k in range(a, 6):
                R[k].append((4 ** a * R[k][a - 1] - R[k - 1][a - 1]) / (4 ** a - 1))
        best, near = R[4][4], (R[3][3], R[4][3], R[5][4])
        for k in range(rows):
            got = dense.get((k, j), 0.0)
            big = max(sc[k] / h[j], abs(best[k]))
            bound = 1e-7 * big + 10 * max(abs(best[k] - w[k]) for w in near)
            if bound > 1e-3 * big:
                m.ev("difference-unresolved")
                continue
            name = "outside-sparsity" if (k, j) not in dense else "entry" if q is p else "osculating-entry"
            m.check("gradient:" + name, abs(got - best[k]), bound, lambda: dict(inp(), row=k, column=j), "got %r want %r" % (got, float(best[k])))


if __name__ == "__main__":
    pymon.drive(23, case)
