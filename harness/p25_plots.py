"""P25: what is drawn is the trajectory, the orbit or the leg that was given. The axes are a recorder."""
import contextlib, io, math, sys, warnings
warnings.simplefilter("ignore")
import numpy as np
import matplotlib.pyplot as plt
import pykep as pk
import pymon
import p22_mga, p23_direct
from pymon import logu, unit

DAY = 86400.0


class Axes:
    def __init__(self):
        self.calls = []

    def _rec(self, kind, a, k):
        self.calls.append((kind, [np.array(v, dtype=float).reshape(-1) if not isinstance(v, str) else v for v in a], dict(k)))

    def plot(self, *a, **k):
        self._rec("plot", a, k)

    def scatter(self, *a, **k):
        self._rec("scatter", a, k)

    def quiver(self, *a, **k):
        self._rec("quiver", a, k)

    def take(self):
        c, self.calls = self.calls, []
        return c


class Figure:
    def __init__(self, kw):
        self.kw = kw

    def add_subplot(self, *a, **k):
        ax = Axes()
        ax.made = (self.kw, a, k)
        return ax


plt.figure = lambda **k: Figure(k)


def pts(c):
    """The (n,3) points of a recorded plot or scatter."""
    return np.array(c[1][:3]).T


def conic(rv, mu):
    r, v = np.array(rv[0], float), np.array(rv[1], float)
    h = np.cross(r, v)
    e = np.cross(v, h) / mu - r / np.linalg.norm(r)
    return r, v, h, e, h.dot(h) / mu


def turning(P, h):
    """The angles from each point to the next, about h, in [0, 2 pi)."""
    u = h / np.linalg.norm(h)
    out = []
    for a, b in zip(P[:-1], P[1:]):
        t = math.atan2(u.dot(np.cross(a, b)), a.dot(b))
        out.append(t)
    return np.array(out)


def on_conic(m, name, P, rv, mu, tol, inp):
    """Every point of P (in the units of rv) lies on the orbit of rv."""
    r, v, h, e, p = conic(rv, mu)
    hn = np.linalg.norm(h)
    worst = 0.0
    for q in P:
        R = np.linalg.norm(q)
        worst = max(worst, abs(R + q.dot(e) - p) / (R * (1 + np.linalg.norm(e)) + p), abs(q.dot(h)) / (R * hn))
    m.check(name, worst if len(P) else 0.0, tol, inp)


def state(rng, mu, size, emax=1.5):
    while True:
        r = [x * size * logu(rng, 0.3, 3) for x in unit(rng)]
        R = math.sqrt(sum(x * x for x in r))
        s = math.sqrt(mu / R)
        v = [x * s * rng.uniform(0.3, 1.6) for x in unit(rng)]
        _, _, h, e, p = conic([r, v], mu)
        if p > 0.02 * R and np.linalg.norm(e) < emax and abs(np.linalg.norm(e) - 1) > 1e-3:
            return [r, v]


def unitsof(rng, size):
    return rng.choice([size, size * logu(rng, 1e-3, 1e3), pk.AU])


def kwargs_of(rng, *names):
    all_ = {"c": "red", "alpha": 0.25, "label": "a label", "s": 7, "linewidth": 2, "zorder": 3}
    return {n: all_[n] for n in names if rng.random() < 0.5}


def same_kwargs(got, want):
    return all(k in got and got[k] == v for k, v in want.items()) and set(got) <= set(want) | {"c", "color", "label", "s"}


# --------------------------------------------------------------------------------------------------------------- cases
def theta(m, rng, i):
    mu, size = logu(rng, 1e-3, 1e20), logu(rng, 1e-3, 1e12)
    rv = state(rng, mu, size)
    r, v, h, e, p = conic(rv, mu)
    en = np.linalg.norm(e)
    f0 = math.atan2(np.linalg.norm(h) * r.dot(v) / mu, p - np.linalg.norm(r))  # true anomaly (scaled coordinates of e)
    n = rng.randint(0, 8)
    if en < 1:
        th = [rng.choice([rng.uniform(0, 6.3), rng.uniform(-12, 12), 0.0, math.pi]) for _ in range(n)]
    else:
        lim = math.acos(-1 / en) * 0.97
        if abs(f0) > lim:
            return m.ev("skipped:asymptote")
        th = [rng.uniform(-lim, lim) - f0 for _ in range(n)]
    inp = {"rv": rv, "mu": mu, "thetas": th}
    arg = rng.choice([th, np.array(th, dtype=float)])
    got = pk.plot.propagate_lagrangian_theta_v(rv=rv, thetas=arg, mu=mu) if rng.random() < 0.5 else pk.plot.propagate_lagrangian_theta_v(rv, arg, mu, False)
    if not m.require("theta:shape", got.shape == (n, 6), inp):
        return
    for t, q in zip(th, got):
        fin = f0 + t
        cond = 1 + 1 / max(1e-3, 1 + en * math.cos(fin)) * (1 + en) + (1 + en) * np.linalg.norm(r) / p
        tol = 1e-13 * cond * cond * (1 + abs(t))
        r1, v1, h1, e1, p1 = conic([q[:3], q[3:]], mu)
        m.check("theta:momentum", np.linalg.norm(h1 - h) / np.linalg.norm(h), tol, inp)
        m.check("theta:eccentricity", np.linalg.norm(e1 - e), tol * (1 + en), inp)
        d = math.atan2((h / np.linalg.norm(h)).dot(np.cross(r, r1)), r.dot(r1)) - t
        m.check("theta:angle", abs(math.remainder(d, 2 * math.pi)), tol, inp)
    m.raises("theta:no-stm", NotImplementedError, lambda: pk.plot.propagate_lagrangian_theta_v(rv, th, mu, True), inp)
    m.nontriv(rv, th)


def a_planet(rng):
    """(planet, span of epochs that it accepts, its size, the osculating state and mu or None)"""
    if rng.random() < 0.4:
        return pk.planet(pk.udpla.jpl_lp(rng.choice(p22_mga.NAMES[:6]))), pk.AU
    mu, size = logu(rng, 1e9, 1e21), None
    size = (mu * (logu(rng, 30, 1000) * DAY / 6.28) ** 2) ** (1 / 3)
    return pk.planet(pk.udpla.keplerian(pk.epoch(rng.uniform(-3000, 3000)), state(rng, mu, size), mu, "k")), size


class NoPeriod:
    def eph(self, t):
        return [[1e11 * math.cos(t / 50), 1e11 * math.sin(t / 50), 1e9 * t], [1.0, 2.0, 3.0]]


def planet(m, rng, i):
    p, size = a_planet(rng)
    if rng.random() < 0.2:
        p, size = pk.planet(NoPeriod()), 1e11
    u = unitsof(rng, size)
    t = rng.uniform(-3000, 3000)
    inp = {"planet": repr(p), "units": u, "t": t}
    ax = Axes()
    kw = kwargs_of(rng, "c", "alpha", "label", "s")
    when = rng.choice([t, pk.epoch(t)])
    r = p.eph(when)[0]
    got = pk.plot.add_planet(ax, p, when, u, **kw) if rng.random() < 0.3 else pk.plot.add_planet(ax, p, when=when, units=u, **kw) if rng.random() < 0.7 or u != pk.AU else pk.plot.add_planet(ax, p, when, **kw)
    c = ax.take()
    m.require("planet:axes", got is ax and len(c) == 1 and c[0][0] == "scatter" and c[0][2] == kw, inp, repr(c))
    m.check("planet:position", np.abs(pts(c[0])[0] * u - np.array(r)).max(), 1e-15 * 3 * np.linalg.norm(r), inp)
    # its orbit
    n = rng.choice([2, 5, 60, 61])
    kw = kwargs_of(rng, "c", "alpha", "label", "linewidth")
    rng_ = rng.choice([None, [t, t + logu(rng, 1, 2000)], [t, t - 100.0]])
    if rng.random() < 0.3 and rng_ is not None:
        rng_ = tuple(rng_)
    inp = dict(inp, range=rng_, N=n)
    args = dict(plot_range=rng_, units=u, N=n)
    if rng_ is None:
        del args["plot_range"]
        try:
            T = p.period() / DAY
        except NotImplementedError:
            with contextlib.redirect_stdout(io.StringIO()):
                m.raises("orbit:no-period", NotImplementedError, lambda: pk.plot.add_planet_orbit(ax, p, **args), inp)
            return m.require("orbit:no-period-nothing-drawn", not ax.take(), inp)
        if not math.isfinite(T):
            return m.ev("skipped:no-orbital-period")
        lo, hi = 0.0, T
    else:
        lo, hi = rng_
    got = pk.plot.add_planet_orbit(ax, p, **args, **kw)
    c = ax.take()
    if not m.require("orbit:axes", got is ax and len(c) == 1 and c[0][0] == "plot" and c[0][2] == kw and pts(c[0]).shape == (n, 3), inp, repr([(x[0], x[2]) for x in c])):
        return
    P = pts(c[0]) * u
    for k in range(n):
        s = lo + (hi - lo) * k / (n - 1)
        w = np.array(p.eph(s))
        tol = 1e-14 * np.linalg.norm(w[0]) + np.linalg.norm(w[1]) * DAY * 1e-15 * (abs(s) + abs(lo) + abs(hi) + 1e4)
        m.check("orbit:points", np.abs(P[k] - w[0]).max(), 50 * tol, inp)
    if rng_ is None and p.is_(pk.udpla.keplerian):
        m.check("orbit:closed", np.abs(P[0] - P[-1]).max(), 1e-9 * np.abs(P).max(), inp)
    m.nontriv(repr(p), t, n)


LABELS = ["Mercury", "Venus", "Earth", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune"]


def solar_system(m, rng, i):
    bodies = rng.choice([None, rng.sample(range(1, 9), rng.randint(0, 8)), list(range(1, 9))])
    t = rng.choice([None, rng.uniform(-15000, 15000)])
    when = pk.epoch(0 if t is None else t)
    sizes = rng.choice([None, [rng.randint(1, 30) for _ in range(9)]])
    kw = {k: v for k, v in (("bodies", bodies), ("when", None if t is None else when), ("s", sizes)) if v is not None}
    inp = {"bodies": bodies, "t": t, "s": sizes}
    ax = Axes()
    got = pk.plot.add_solar_system(ax, **kw)
    c = ax.take()
    bodies = bodies if bodies is not None else [1, 2, 3, 4, 5, 6]
    sizes = sizes or [15, 2, 3, 3, 2, 8, 8, 5, 5]
    m.require("solar:axes", got is ax, inp)
    sc = [x for x in c if x[0] == "scatter"]
    ln = [x for x in c if x[0] == "plot"]
    m.require("solar:counts", len(sc) == 1 + len(bodies) and len(ln) == len(bodies), inp, "%d %d" % (len(sc), len(ln)))
    sun = [x for x in sc if x[2].get("label") == "Sun"]
    m.require("solar:sun", len(sun) == 1 and not np.any(pts(sun[0])) and sun[0][2]["s"] == sizes[0], inp)
    for b in range(1, 9):
        mine = [x for x in sc if x[2].get("label") == LABELS[b - 1]]
        if b not in bodies:
            m.require("solar:only-selected", not mine, inp, LABELS[b - 1])
            continue
        rv = pk.planet(pk.udpla.jpl_lp(LABELS[b - 1])).eph(when)
        if not m.require("solar:selected", len(mine) == 1 and mine[0][2]["s"] == sizes[b], inp, LABELS[b - 1]):
            continue
        R = np.linalg.norm(rv[0])
        m.check("solar:position", np.linalg.norm(pts(mine[0])[0] * pk.AU - rv[0]), 1e-11 * R, dict(inp, body=b))
        orbit = [x for x in ln if x[2].get("c") == mine[0][2].get("c")]
        if not m.require("solar:one-orbit", len(orbit) == 1, dict(inp, body=b)):
            continue
        P = pts(orbit[0]) * pk.AU
        on_conic(m, "solar:orbit", P, rv, pk.planet(pk.udpla.jpl_lp(LABELS[b - 1])).get_mu_central_body(), 1e-10, dict(inp, body=b))
        d = turning(P, np.cross(*rv))
        m.require("solar:whole-orbit", abs(d.sum() - 2 * math.pi) < 0.2 and d.min() > 0, dict(inp, body=b), "%r" % d.sum())
    m.nontriv(bodies, t, sizes)


def a_lambert(rng):
    mu, size = logu(rng, 1e-3, 1e20), logu(rng, 1e-3, 1e12)
    T = 2 * math.pi * math.sqrt(size ** 3 / mu)
    for _ in range(50):
        r0, r1 = ([x * size * rng.uniform(0.4, 2.5) for x in unit(rng)] for _ in range(2))
        if np.linalg.norm(np.cross(r0, r1)) > 0.02 * np.linalg.norm(r0) * np.linalg.norm(r1) and abs(np.cross(r0, r1)[2]) > 1e-3 * np.linalg.norm(np.cross(r0, r1)):
            break
    return pk.lambert_problem(r0, r1, T * logu(rng, 0.1, 8), mu, rng.random() < 0.5, rng.choice([0, 1, 3, 6])), size


def arc_of(m, name, P, l, sol, inp):
    """P is the solution `sol` of the Lambert problem l, drawn from r0 (to r1 when it makes less than one revolution)."""
    rv = [l.r0, l.v0[sol]]
    r, v, h, e, p = conic(rv, l.mu)
    R = max(np.linalg.norm(l.r0), np.linalg.norm(l.r1))
    if np.linalg.norm(h) < 0.05 * np.linalg.norm(r) * np.linalg.norm(v) or p < 1e-3 * R:
        return m.ev("skipped:nearly-rectilinear")
    en = np.linalg.norm(e)
    tol = 1e-9 * (1 + en) ** 2 * (R / p + 1)
    m.check(name + ":starts", np.linalg.norm(P[0] - r), 1e-13 * R, inp)
    on_conic(m, name + ":orbit", P, rv, l.mu, tol, inp)
    d = turning(P, h)
    if sol == 0:
        m.check(name + ":ends", np.linalg.norm(P[-1] - l.r1), tol * R * 10, inp)
        want = math.atan2(h.dot(np.cross(l.r0, l.r1)) / np.linalg.norm(h), np.dot(l.r0, l.r1)) % (2 * math.pi)
    else:
        m.check(name + ":closes", np.linalg.norm(P[-1] - r), tol * R, inp)
        want = 2 * math.pi
    if len(P) > 8:
        m.check(name + ":sweeps", abs(d.sum() - want), 1e-6, inp)
        m.require(name + ":monotonic", d.min() > 0, inp)


def lambert(m, rng, i):
    try:
        l, size = a_lambert(rng)
    except ValueError:
        return m.ev("skipped:no-problem")
    n, u = rng.choice([2, 3, 20, 60, 61]), unitsof(rng, size)
    sol = rng.choice([0, 0, rng.randint(0, 2 * l.Nmax)])
    kw = kwargs_of(rng, "c", "alpha", "label", "linewidth")
    inp = {"problem": repr(l), "sol": sol, "N": n, "units": u}
    ax = Axes()
    got = pk.plot.add_lambert(ax, l, N=n, sol=sol, units=u, **kw) if rng.random() < 0.6 else pk.plot.add_lambert(ax, l, n, sol, u, **kw)
    c = ax.take()
    if not m.require("lambert:axes", got is ax and len(c) == 1 and c[0][0] == "plot" and c[0][2] == kw and pts(c[0]).shape == (n, 3), inp):
        return
    arc_of(m, "lambert", pts(c[0]) * u, l, sol, inp)
    if rng.random() < 0.2:
        pk.plot.add_lambert(ax, l)
        c = ax.take()
        arc_of(m, "lambert-defaults", pts(c[0]) * pk.AU, l, 0, inp)
        m.require("lambert:defaults", pts(c[0]).shape == (60, 3), inp)
    m.raises("lambert:refuses", ValueError, lambda: pk.plot.add_lambert(ax, l, sol=2 * l.Nmax + 1 + rng.randint(0, 3)), inp)
    m.require("lambert:refused-draws-nothing", not ax.take(), inp)
    m.nontriv(l.r0, l.r1, sol)


def chain(rv, mu, tof, n):
    """n positions, equal times apart, of the motion from rv, and the error to expect of them."""
    P, V = [], []
    for k in range(n):
        s = pk.propagate_lagrangian(rv, tof * k / (n - 1), mu) if k else rv
        P.append(s[0])
        V.append(np.linalg.norm(s[1]))
    return np.array(P), np.array(V)


def ballistic_tol(rv, mu, tof, n):
    """Rounding errors of n chained arcs: growth of the state over the time, with margins."""
    r, v, h, e, p = conic(rv, mu)
    rp = p / (1 + np.linalg.norm(e))
    return 1e-14 * n * (1 + abs(tof) * math.sqrt(mu / rp ** 3)) ** 2 * 3000


def ballistic(m, rng, i):
    mu, size = logu(rng, 1e-3, 1e20), logu(rng, 1e-3, 1e12)
    rv = state(rng, mu, size)
    T = 2 * math.pi * math.sqrt(size ** 3 / mu)
    tof, n, u = T * rng.uniform(-1, 1), rng.choice([2, 3, 60, 25]), unitsof(rng, size)
    kw = kwargs_of(rng, "c", "alpha", "label", "linewidth")
    inp = {"rv": rv, "mu": mu, "tof": tof, "N": n, "units": u}
    tol = ballistic_tol(rv, mu, tof, n)
    if tol > 1e-4:
        return m.ev("skipped:ill-conditioned")
    ax = Axes()
    given = [list(rv[0]), list(rv[1])]
    if rng.random() < 0.3:
        given = np.array(rv)
    got = pk.plot.add_ballistic_arc(ax, given, tof, mu, units=u, N=n, **kw)
    c = ax.take()
    m.require("ballistic:input-unchanged", np.array_equal(np.array(given), np.array(rv)), inp)
    if not m.require("ballistic:axes", got is ax and len(c) == 1 and c[0][0] == "plot" and c[0][2] == kw and pts(c[0]).shape == (n, 3), inp):
        return
    P, V = chain(rv, mu, tof, n)
    for k in range(n):
        m.check("ballistic:points", np.linalg.norm(pts(c[0])[k] * u - P[k]), tol * (np.linalg.norm(P[k]) + np.linalg.norm(rv[0])), inp)
    m.nontriv(rv, tof, n)


def a_leg(rng, cls):
    si = rng.random() < 0.6 or cls is pk.leg.sims_flanagan_hf
    mu, size = (1.0, 1.0) if not si or cls is pk.leg.sims_flanagan_hf else (pk.MU_SUN, pk.AU)
    a, b = ([[x for x in v] for v in state(rng, mu, size, 0.8)] for _ in range(2))
    s = math.sqrt(mu / size)
    n = rng.choice([1, 2, 3, 5, 8])
    ms = logu(rng, 1, 3000)
    tof = 2 * math.pi * size / s * rng.uniform(0.1, 1)
    T = ms * mu / size ** 2 * logu(rng, 1e-3, 0.1)
    isp = T * tof / ms / 9.80665 / logu(rng, 0.01, 0.5)
    th = [rng.choice([rng.uniform(-0.8, 0.8), rng.uniform(-0.8, 0.8), 1.0]) for _ in range(3 * n)]
    return cls(rvs=a, ms=ms, throttles=th, rvf=b, mf=ms * rng.uniform(0.6, 1), tof=tof, max_thrust=T, isp=isp, mu=mu, cut=rng.choice([0.0, 1.0, 0.5, rng.random()])), size


def sf_chain(l):
    """The documented model, one side at a time: lists of (start, coasting time, end, midpoint?) and nodes."""
    n = len(l.throttles) // 3
    nf = int(n * l.cut)
    dt = l.tof / n
    sides = []
    for rv, m, k, sg in ((l.rvs, l.ms, nf, 1), (l.rvf, l.mf, n - nf, -1)):
        rv, arcs, nodes, mids, ths = [list(rv[0]), list(rv[1])], [], [list(rv[0])], [], []
        for j in range(k):
            q = j if sg == 1 else n - 1 - j
            th = l.throttles[3 * q: 3 * q + 3]
            a = rv
            rv = [list(x) for x in pk.propagate_lagrangian(rv, sg * dt / 2, l.mu)]
            arcs.append((a, rv[0], th))
            mids.append(rv[0])
            ths.append(th)
            imp = l.max_thrust * dt / m
            rv = [rv[0], [v + sg * imp * t for v, t in zip(rv[1], th)]]
            m *= math.exp(-sg * math.sqrt(sum(t * t for t in th)) * imp / (l.isp * pk.G0))
            b = rv
            rv = [list(x) for x in pk.propagate_lagrangian(rv, sg * dt / 2, l.mu)]
            arcs.append((b, rv[0], th))
            nodes.append(rv[0])
        sides.append((arcs, nodes, mids, ths, sg * dt / 2))
    return sides


def leg_drawn(m, name, calls, l, size, u, n, mid, grid, thr, length, ratio, kw, inp):
    """The calls are what a Sims-Flanagan leg looks like."""
    sides = sf_chain(l)
    tol = 1e-8
    lines = [c for c in calls if c[0] == "plot" and len(c[1]) == 3]
    arcs = [a + (s[4],) for s in sides for a in s[0]]
    if not m.require(name + ":arcs", len(lines) == len(arcs) and all(pts(c).shape == (n, 3) for c in lines), inp, "%d lines for %d arcs" % (len(lines), len(arcs))):
        return
    for c, (rv, end, th, t) in zip(lines, arcs):
        P = pts(c) * u
        R = np.linalg.norm(rv[0]) + np.linalg.norm(end)
        e = ballistic_tol(rv, l.mu, t, n)
        if e > 1e-6:
            m.ev("skipped:ill-conditioned")
            return
        m.check(name + ":arc-starts", np.linalg.norm(P[0] - rv[0]), tol * R, inp)
        m.check(name + ":arc-ends", np.linalg.norm(P[-1] - end), tol * R, inp)
        on_conic(m, name + ":arc-orbit", P, rv, l.mu, 1e-7, inp)
        m.require(name + ":kwargs", all(c[2].get(k) == v for k, v in kw.items()), inp, repr(c[2]))
    # the two sides end as far apart as the leg's mismatch says
    mc = np.array(l.compute_mismatch_constraints()[:3])
    ends = [pts(lines[2 * len(s[2]) - 1 + (0 if k == 0 else 2 * len(sides[0][2]))])[-1] * u if s[0] else np.array(s[1][0]) for k, s in enumerate(sides)]
    m.check(name + ":mismatch", np.linalg.norm(ends[0] - ends[1] - mc), 1e-7 * (np.linalg.norm(mc) + 4 * size), inp)
    for flag, fmt, what, k in ((grid, "k.", "gridpoints", 1), (mid, "kx", "midpoints", 2)):
        c = [x for x in calls if x[0] == "plot" and len(x[1]) == 4 and x[1][3] == fmt]
        if not flag:
            m.require(name + ":not-asked:" + what, not c, inp)
            continue
        P = np.concatenate([pts(x) for x in c]) * u if c else np.zeros((0, 3))
        W = np.array([q for s in sides for q in s[k]]).reshape(-1, 3)
        if m.require(name + ":" + what + ":count", P.shape == W.shape, inp, "%r %r" % (P.shape, W.shape)) and len(W):
            m.check(name + ":" + what, np.abs(P - W).max(), tol * 4 * size, inp)
    q = [x for x in calls if x[0] == "quiver"]
    if not thr:
        return m.require(name + ":not-asked:throttles", not q, inp)
    P = np.concatenate([np.array(x[1][:6]).T for x in q]) if q else np.zeros((0, 6))
    W = np.array([list(a) + list(b) for s in sides for a, b in zip(s[2], s[3])]).reshape(-1, 6)
    if m.require(name + ":throttles:count", P.shape == W.shape, inp) and len(W):
        m.check(name + ":throttles:at", np.abs(P[:, :3] * u - W[:, :3]).max(), tol * 4 * size, inp)
        m.check(name + ":throttles:directions", np.abs(P[:, 3:] - W[:, 3:]).max(), 1e-15, inp)
        m.require(name + ":throttles:length", all(x[2].get("length") == length and x[2].get("arrow_length_ratio") == ratio for x in q), inp)


def options(rng):
    return [rng.random() < 0.5 for _ in range(3)]


def sf_leg(m, rng, i):
    try:
        l, size = a_leg(rng, pk.leg.sims_flanagan)
        n, u = rng.choice([2, 5, 10]), unitsof(rng, size)
        mid, grid, thr = options(rng)
        length, ratio = logu(rng, 0.01, 1), rng.random()
        kw = kwargs_of(rng, "alpha", "linewidth")
        inp = {"leg": repr(l), "units": u, "N": n, "options": [mid, grid, thr]}
        sf_chain(l)
    except (ValueError, RuntimeError):
        return m.ev("skipped:no-leg")
    before = repr(l)
    ax = Axes()
    got = pk.plot.add_sf_leg(ax, l, units=u, N=n, show_midpoints=mid, show_gridpoints=grid, show_throttles=thr, length=length, arrow_length_ratio=ratio, **kw)
    m.require("sf:axes", got is ax and repr(l) == before, inp)
    leg_drawn(m, "sf", ax.take(), l, size, u, n, mid, grid, thr, length, ratio, kw, inp)
    m.nontriv(before, n)


def hf_leg(m, rng, i):
    try:
        l, size = a_leg(rng, pk.leg.sims_flanagan_hf)
        n = rng.choice([2, 3, 6])
        H = l.get_state_history(n)
    except (ValueError, RuntimeError):
        return m.ev("skipped:no-leg")
    u = logu(rng, 1e-3, 1e3)
    grid, thr = rng.random() < 0.5, rng.random() < 0.5
    length, ratio = logu(rng, 0.01, 1), rng.random()
    inp = {"leg": repr(l), "units": u, "N": n, "options": [grid, thr]}
    ax = Axes()
    got = pk.plot.add_sf_hf_leg(ax, l, units=u, N=n, show_gridpoints=grid, show_throttles=thr, length=length, arrow_length_ratio=ratio)
    m.require("hf:axes", got is ax, inp)
    calls = ax.take()
    ns = l.nseg
    S = [np.array(h).reshape(n, 7)[:, :3] for h in H]
    # forwards from the start, backwards from the end
    fwd, bck = S[: l.nseg_fwd], S[l.nseg_fwd:][::-1]
    lines = [c for c in calls if c[0] == "plot" and c[2].get("c") == "k"]
    if not m.require("hf:lines", len(lines) == 2, inp):
        return
    for c, w, end, r in ((lines[0], fwd, "start", l.rvs[0]), (lines[1], bck, "end", l.rvf[0])):
        P = pts(c) * u
        W = np.concatenate(w) if w else np.zeros((0, 3))
        if m.require("hf:points:count", P.shape == W.shape, inp) and len(W):
            m.check("hf:points", np.abs(P - W).max(), 1e-12 * (1 + np.abs(W).max()), inp)
            m.check("hf:touches-" + end, np.abs(P[0] - r).max(), 1e-12 * (1 + np.abs(W).max()), inp)
            m.check("hf:continuous", max([np.abs(a[-1] - b[0]).max() for a, b in zip(w[:-1], w[1:])] + [0.0]), 1e-10 * (1 + np.abs(W).max()), inp)
    sc = [c for c in calls if c[0] == "scatter"]
    if grid:
        P = np.concatenate([pts(c) for c in sc]) * u
        W = np.concatenate(fwd + bck)
        m.check("hf:gridpoints", np.abs(P - W).max() if P.shape == W.shape else math.inf, 1e-12 * (1 + np.abs(W).max()), inp)
    else:
        m.require("hf:not-asked:gridpoints", not sc, inp)
    q = [c for c in calls if c[0] == "quiver"]
    tips = [c for c in calls if c[0] == "plot" and c[2].get("c") != "k"]
    if not thr:
        m.require("hf:not-asked:throttles", not q and not tips, inp)
    elif m.require("hf:throttles:count", len(q) == ns == len(tips), inp):
        for c, tip in zip(q, tips):
            P = np.array(c[1][:6]).T
            # the segment it is drawn on is the one with this throttle
            k = [j for j in range(ns) if P[:, :3].shape == S[j].shape and np.abs(P[:, :3] * u - S[j]).max() < 1e-9 * (1 + np.abs(S[j]).max())]
            if m.require("hf:throttles:at", len(k) >= 1, inp):
                m.check("hf:throttles:directions", min(np.abs(P[:, 3:] - np.array(l.throttles[3 * j: 3 * j + 3])).max() for j in k), 1e-15, inp)
            m.check("hf:throttles:tips", np.abs(pts(tip) - (P[:, :3] + length * P[:, 3:])).max(), 1e-12 * (1 + np.abs(P[:, :3]).max() + length), inp)
            m.require("hf:throttles:length", c[2].get("length") == length and c[2].get("arrow_length_ratio") == ratio, inp)
    m.nontriv(inp["leg"], n)


def mga(m, rng, i):
    p = p22_mga.make(rng)
    udp = p22_mga.build(p)
    x = p22_mga.chromosome(p, rng)
    ep, _ = p22_mga.decode(p, x)
    try:
        p22_mga.price(p, ep)
        udp.fitness(x)
    except Exception as e:
        return m.ev("skipped:no-trajectory:" + type(e).__name__)
    n = len(p["seq"])
    size = max(np.linalg.norm(s.eph(t)[0]) for s, t in zip(p["seq"], ep))
    u, N = unitsof(rng, size), rng.choice([10, 30, 60])
    ids = rng.choice([None, None, rng.sample(range(n - 1), rng.randint(1, n - 1))])
    kw = kwargs_of(rng, "alpha", "linewidth")
    args = dict(units=u, N=N, **({} if ids is None else {"leg_ids": ids}))
    inp = dict(p22_mga.show(p, x), units=u, N=N, leg_ids=ids)
    ax = rng.choice([None, Axes()])
    fig = rng.choice([(5, 5), (3, 4)])
    got = udp.plot(x, ax=ax, figsize=fig, **args, **kw)
    m.require("mga:axes", got is ax if ax is not None else isinstance(got, Axes) and got.made == ({"figsize": fig}, (), {"projection": "3d"}), inp)
    calls = got.take()
    sc = [c for c in calls if c[0] == "scatter"]
    ln = [c for c in calls if c[0] == "plot"]
    legs = list(range(n - 1)) if ids is None else ids
    if not m.require("mga:counts", len(sc) == n + 1 and len(ln) == n + len(legs), inp, "%d points, %d lines" % (len(sc), len(ln))):
        return
    m.require("mga:sun", sum(c[2].get("label") == "Sun" and not np.any(pts(c)) for c in sc) == 1, inp)
    at = [c for c in sc if c[2].get("label") != "Sun"]
    for k in range(n):
        rv = p["seq"][k].eph(ep[k])
        slack = 1e-11 * (abs(ep[0]) + abs(ep[-1]) + 1) * DAY * np.linalg.norm(rv[1])
        m.check("mga:encounters", np.linalg.norm(pts(at[k])[0] * u - rv[0]), slack + 1e-12 * size, inp)
    orbits, arcs = [c for c in ln if c[2].get("c") == "dimgray"], [c for c in ln if c[2].get("c") != "dimgray"]
    if not m.require("mga:orbits", len(orbits) == n, inp):
        return
    for k in range(n):
        pl = p["seq"][k]
        T = pl.period() / DAY
        P = pts(orbits[k]) * u
        W = np.array([pl.eph(T * j / (N - 1))[0] for j in (0, N // 2, N - 1)])
        m.check("mga:orbit", np.abs(P[[0, N // 2, N - 1]] - W).max() if len(P) == N else math.inf, 1e-8 * size * 10, inp)
    if m.require("mga:arcs", len(arcs) == len(legs), inp):
        for k, c in zip(legs, arcs):
            r0, r1 = (p["seq"][j].eph(ep[j])[0] for j in (k, k + 1))
            P = pts(c) * u
            l = pk.lambert_problem(r0, r1, (ep[k + 1] - ep[k]) * DAY, p["mu"], False, 0)
            h = np.cross(l.r0, l.v0[0])
            sn = np.linalg.norm(np.cross(r0, r1)) / np.linalg.norm(r0) / np.linalg.norm(r1)
            if sn < 0.02 or abs(np.cross(r0, r1)[2]) < 1e-3 * np.linalg.norm(np.cross(r0, r1)):
                m.ev("skipped:nearly-collinear")
                continue
            m.require("mga:arc-kwargs", len(P) == N and all(c[2].get(a) == b for a, b in kw.items()), inp)
            if np.linalg.norm(h) < 0.05 * np.linalg.norm(l.r0) * np.linalg.norm(l.v0[0]):
                m.ev("skipped:nearly-rectilinear")
                continue
            m.check("mga:arc-starts", np.linalg.norm(P[0] - r0), 1e-7 * size, inp)
            m.check("mga:arc-ends", np.linalg.norm(P[-1] - r1), 1e-5 * size / sn, inp)
    m.nontriv(x, N)


def direct(m, rng, i):
    p = p23_direct.make(rng)
    udp = p23_direct.build(p)
    x = p23_direct.chromosome(p, rng)
    try:
        l = p23_direct.leg(p, x)
        sf_chain(l)
        udp.fitness(np.array(x))
    except Exception as e:
        return m.ev("skipped:no-leg:" + type(e).__name__)
    size = max(np.linalg.norm(l.rvs[0]), np.linalg.norm(l.rvf[0]))
    u = unitsof(rng, size)
    mid, grid, thr = options(rng)
    length, ratio = logu(rng, 0.01, 1), rng.random()
    inp = dict(p23_direct.show(p, x), units=u, options=[mid, grid, thr])
    ax = rng.choice([None, Axes()])
    y = rng.choice([list(x), np.array(x)])
    got = udp.plot(y, ax=ax, units=u, show_midpoints=mid, show_gridpoints=grid, show_throttles=thr, length=length, arrow_length_ratio=ratio)
    m.require("direct:axes", got is ax if ax is not None else isinstance(got, Axes), inp)
    calls = got.take()
    planets = p["kind"] == "pl2pl"
    sc = [pts(c)[0] * u for c in calls if c[0] == "scatter"]
    want = [l.rvs[0], l.rvf[0]] * (2 if planets else 1)
    if m.require("direct:ends:count", len(sc) == len(want), inp):
        m.check("direct:ends", max(np.linalg.norm(a - b) for a, b in zip(sc, want)), 1e-9 * size, inp)
    ln = [c for c in calls if c[0] == "plot" and len(c[1]) == 3 and c[2].get("c") == "gray"]
    if m.require("direct:orbits", len(ln) == (2 if planets else 0), inp) and planets:
        for c, pl in zip(ln, (p["pls"], p["plf"])):
            P = pts(c) * u
            T = pl.period() / DAY
            W = np.array([pl.eph(T * j / (len(P) - 1))[0] for j in (0, len(P) // 2, len(P) - 1)])
            m.check("direct:orbit", np.abs(P[[0, len(P) // 2, -1]] - W).max(), 1e-8 * size * 10, inp)
    leg_drawn(m, "direct", [c for c in calls if c[0] != "scatter" and c[2].get("c") != "gray"], l, size, u, 10, mid, grid, thr, length, ratio, {}, inp)
    m.nontriv(x)


def sun(m, rng, i):
    ax = Axes()
    kw = kwargs_of(rng, "c", "s", "label", "alpha")
    got = pk.plot.add_sun(ax, **kw)
    c = ax.take()
    want = dict({"c": "y", "s": 30, "label": "Sun"}, **kw)
    m.require("sun", got is ax and len(c) == 1 and c[0][0] == "scatter" and not np.any(pts(c[0])) and c[0][2] == want, {"kw": kw})
    f = {"figsize": (rng.randint(1, 9), 3)} if rng.random() < 0.5 else {}
    ax = pk.plot.make_3Daxis(**f)
    m.require("3d-axis", ax.made == (f, (), {"projection": "3d"}), {"kw": f})


KINDS = [theta, planet, lambert, ballistic, sf_leg, solar_system, mga, direct, lambert, theta, planet, ballistic]


def case(m, rng, i):
    k = hf_leg if i % 24 == 7 else sun if i % 48 == 13 else KINDS[i % len(KINDS)]
    only = m.extra.get("only")
    if only:
        k = globals()[only]
    k(m, rng, i)


if __name__ == "__main__":
    pymon.drive(25, case)
