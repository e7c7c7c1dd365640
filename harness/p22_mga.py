"""P22: multi-gravity-assist problems price exactly the trajectory they encode."""
import contextlib, copy, io, math, pickle, re, sys, warnings
warnings.simplefilter("ignore")
import numpy as np
import pykep as pk
import pymon
from pymon import logu, unit

NAMES = ["mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune"]
DAY = 86400.0
MU_SUN = pk.MU_SUN


def norm(v):
    return math.sqrt(sum(float(x) * float(x) for x in v))


def planet(rng, kind, mu, size):
    """kind jpl: a low-precision planet; kep: a Keplerian one about mu, at about `size` metres."""
    if kind == "jpl":
        return pk.planet(pk.udpla.jpl_lp(rng.choice(NAMES[:6])))
    a = size * logu(rng, 0.3, 4)
    el = [a, rng.choice([0.0, rng.uniform(0, 0.3)]), rng.uniform(0, 0.3), rng.uniform(0, 6.28), rng.uniform(0, 6.28), rng.uniform(0, 6.28)]
    radius = size * logu(rng, 1e-6, 1e-3)
    return pk.planet(pk.udpla.keplerian(pk.epoch(rng.uniform(-3000, 3000)), el, mu, rng.choice(["rock", "p%d" % rng.randrange(99)]), [mu * logu(rng, 1e-8, 1e-3), radius, radius * logu(rng, 1.01, 10)]))


def named(rng, name, mu, size):
    el = [size * logu(rng, 0.5, 2), rng.uniform(0, 0.3), rng.uniform(0, 0.3), rng.uniform(0, 6.28), rng.uniform(0, 6.28), rng.uniform(0, 6.28)]
    radius = size * logu(rng, 1e-6, 1e-3)
    return pk.planet(pk.udpla.keplerian(pk.epoch(rng.uniform(-3000, 3000)), el, mu, name, [mu * logu(rng, 1e-8, 1e-3), radius, radius * logu(rng, 1.01, 10)]))


class NoTurn(Exception):
    """A flyby at rest relative to the planet: its turning angle is undefined."""


def fb_dv(vin, vout, mu, rp):
    a, b = norm(vin), norm(vout)
    if min(a, b) < 1e-9 * math.sqrt(mu / rp) or min(a, b) < 1e-300:
        raise NoTurn()
    c = sum(x * y for x, y in zip(vin, vout)) / a / b
    alpha = math.acos(max(-1.0, min(1.0, c)))
    amax = 2 * math.asin(1 / (1 + rp * a * a / mu))
    if alpha <= amax:
        return abs(a - b)
    return math.sqrt(max(0.0, a * a + b * b - 2 * a * b * math.cos(alpha - amax)))


def decode(p, x):
    """Epochs of the encounters, by the documented formulas."""
    x = [float(v) for v in x]
    n = len(p["seq"]) - 1
    if p["enc"] == "direct":
        T = x[1:]
    elif p["enc"] == "alpha":
        l = [math.log(a) for a in x[2:]]
        s = math.fsum(l)
        T = [x[1] * a / s for a in l]
    else:
        T = []
        for e in x[1:]:
            T.append((p["tof"] - math.fsum(T)) * e)
    assert len(T) == n
    ep = [x[0]]
    for t in T:
        ep.append(ep[-1] + t)
    return ep, T


def price(p, ep):
    """The manoeuvres of the trajectory through the planets at the given epochs."""
    seq = p["seq"]
    rv = [pl.eph(t) for pl, t in zip(seq, ep)]
    legs = []
    for i in range(len(seq) - 1):
        l = pk.lambert_problem(r0=rv[i][0], r1=rv[i + 1][0], tof=(ep[i + 1] - ep[i]) * DAY, mu=p["mu"], cw=False, multi_revs=0)
        legs.append((rv[i][0], l.v0[0], rv[i + 1][0], l.v1[0]))
    sub = lambda a, b: [x - y for x, y in zip(a, b)]
    launch = max(0.0, norm(sub(legs[0][1], rv[0][1])) - 1000 * p["vinf"])
    fbs = [fb_dv(sub(legs[i][3], rv[i + 1][1]), sub(legs[i + 1][1], rv[i + 1][1]), seq[i + 1].get_mu_self(), seq[i + 1].get_safe_radius()) for i in range(len(legs) - 1)]
    arr = norm(sub(legs[-1][3], rv[-1][1]))
    if p["insertion"]:
        m, rp, e = seq[-1].get_mu_self(), p["rp"], p["e"]
        arr = abs(math.sqrt(arr * arr + 2 * m / rp) - math.sqrt(m / rp * (1 + e)))
    speeds = max(max(norm(l[1]), norm(l[3])) for l in legs) + max(norm(s[1]) for s in rv)
    return launch + math.fsum(fbs) + arr, legs, rv, speeds


def spread(p, ep):
    """The objective and how much it moves when the epochs move by a few units in the last place."""
    f, legs, rv, speeds = price(p, ep)
    d = 0.0
    for k in range(len(ep)):
        for s in (1, -1):
            q = list(ep)
            q[k] += s * 4e-13 * (abs(q[k]) + abs(ep[-1] - ep[0]))
            d = max(d, abs(price(p, q)[0] - f))
    return f, legs, rv, 1e-9 * speeds + 40 * d


def make(rng):
    kind = rng.choice(["jpl", "kep", "kep"])
    mu = MU_SUN if kind == "jpl" else rng.choice([MU_SUN, MU_SUN, logu(rng, 1e12, 1e21)])
    # a length for which periods are some hundred days, so that times of flight in days make sense
    size = (mu * (logu(rng, 30, 1000) * DAY / 6.28) ** 2) ** (1 / 3)
    n = rng.choice([1, 1, 2, 2, 3, 4, 5])
    seq = [planet(rng, kind, mu, size) for _ in range(n + 1)]
    if rng.random() < 0.3 and n > 1:
        seq[-1] = seq[0]
    if rng.random() < 0.2 and n > 1:
        seq[1] = seq[0]
    p = {"kind": kind, "mu": seq[0].get_mu_central_body(), "seq": seq, "enc": rng.choice(["direct", "alpha", "eta"]), "vinf": rng.choice([0.0, rng.uniform(0, 8), 2.5]),
         "mo": rng.random() < 0.4, "insertion": rng.random() < 0.5, "e": None, "rp": None}
    if p["insertion"]:
        p["e"] = rng.choice([0.0, rng.uniform(0, 0.99), 0.98, rng.uniform(1, 2)])
        p["rp"] = seq[-1].get_safe_radius() * logu(rng, 1, 20)
    t0 = rng.uniform(-3000, 3000)
    p["t0"] = [t0, t0 + rng.choice([0, logu(rng, 1, 2000)])]
    legs = [[t, t * rng.uniform(1, 3)] for t in (logu(rng, 30, 900) for _ in range(n))]
    if p["enc"] == "direct":
        p["tof"] = legs
    elif p["enc"] == "alpha":
        p["tof"] = [sum(a for a, _ in legs), sum(b for _, b in legs)]
    else:
        p["tof"] = sum(b for _, b in legs)
    return p


def build(p, rng=None):
    t0 = list(p["t0"])
    if p.get("epochs"):
        t0 = [pk.epoch(t) for t in t0]
    kw = dict(seq=list(p["seq"]), t0=t0, tof=copy.deepcopy(p["tof"]), vinf=p["vinf"], multi_objective=p["mo"], tof_encoding=p["enc"],
              orbit_insertion=p["insertion"], e_target=p["e"], rp_target=p["rp"])
    return pk.trajopt.mga(**kw)


def show(p, x=None):
    return {"planets": [repr(s) for s in p["seq"]], **{k: p[k] for k in ("enc", "tof", "t0", "vinf", "mo", "insertion", "e", "rp", "mu")}, "x": x}


def chromosome(p, rng):
    n = len(p["seq"]) - 1
    t0 = rng.uniform(*p["t0"])
    if p["enc"] == "direct":
        x = [t0] + [rng.choice([rng.uniform(a, b), a, b]) for a, b in p["tof"]]
        if rng.random() < 0.4:  # numbers whose sums are exact, so that encounters can be asked for exactly
            y = [round(v * 8) / 8 for v in x]
            if p["t0"][0] <= y[0] <= p["t0"][1] and all(a <= v <= b for v, (a, b) in zip(y[1:], p["tof"])):
                x = y
        return x
    if p["enc"] == "alpha":
        return [t0, rng.uniform(*p["tof"])] + [rng.uniform(1e-3, 1 - 1e-3) for _ in range(n)]
    return [t0] + [rng.uniform(0.05, 0.9) for _ in range(n)]


def shape(rng, x):
    return np.array(x) if rng.random() < 0.6 else list(x)


def check_objective(m, p, f, ep, T, inp, what="fitness"):
    want, legs, rv, tol = spread(p, ep)
    m.require(what + ":length", len(f) == (2 if p["mo"] else 1), inp)
    m.check(what, abs(float(f[0]) - want), tol, inp, "got %r, recomputed %r" % (float(f[0]), want))
    if p["mo"]:
        m.check(what + ":total-time", abs(float(f[1]) - math.fsum(T)), 1e-11 * (math.fsum(T)), inp)
    return legs, rv, tol


def case(m, rng, i):
    if i % 40 == 39:
        return gym(m, rng, i)
    if i % 10 == 9:
        return refusals(m, rng)
    p = make(rng)
    p["epochs"] = rng.random() < 0.3
    udp = build(p)
    n = len(p["seq"]) - 1
    # bounds
    lb, ub = udp.get_bounds()
    dim = n + 1 + (p["enc"] == "alpha")
    inp = lambda: show(p)
    m.require("bounds:dimension", len(lb) == dim and len(ub) == dim, inp)
    m.check("bounds:t0", max(abs(lb[0] - p["t0"][0]), abs(ub[0] - p["t0"][1])), 3e-11, inp)
    if p["enc"] == "direct":
        m.require("bounds:tof", list(lb[1:]) == [a for a, _ in p["tof"]] and list(ub[1:]) == [b for _, b in p["tof"]], inp)
    elif p["enc"] == "alpha":
        m.require("bounds:tof", lb[1] == p["tof"][0] and ub[1] == p["tof"][1], inp)
    if p["enc"] != "direct":
        m.require("bounds:ratios", all(0 < a < b < 1 for a, b in zip(lb[-n:], ub[-n:])), inp)
    m.require("objectives", udp.get_nobj() == (2 if p["mo"] else 1), inp)
    decided = False
    work = rng.choice([None, np.zeros(dim), [0.0] * dim])  # an array that is overwritten with each new chromosome
    for _ in range(3):
        x = chromosome(p, rng)
        inp = lambda: show(p, x)
        ep, T = decode(p, x)
        if min(T) < 1e-3:
            m.ev("arc-too-short")
            continue
        y = shape(rng, x)
        if work is not None:
            work[:] = x
            y = work
        try:
            want = price(p, ep)
        except NoTurn:
            m.ev("flyby-at-rest")
            continue
        except Exception as e:
            m.ev("no-trajectory")
            m.raises("no-trajectory:raises", Exception, lambda: udp.fitness(y), inp)
            continue
        f = udp.fitness(y)
        legs, rv, tol = check_objective(m, p, f, ep, T, inp)
        m.require("input-unchanged", [float(v) for v in y] == x, inp)
        decided = True
        # conversions
        other = dict(p)
        if p["enc"] == "alpha":
            d = udp.alpha2direct(y)
            other.update(enc="direct", tof=[[1, 2]] * n)
            same(m, "alpha2direct", p, other, d, ep, T, f, tol, inp)
            back = udp.direct2alpha(np.array(d))
            same(m, "direct2alpha", p, dict(p), back, ep, T, f, tol, inp)
        elif p["enc"] == "eta":
            d = udp.eta2direct(y)
            other.update(enc="direct", tof=[[1, 2]] * n)
            same(m, "eta2direct", p, other, d, ep, T, f, tol, inp)
            back = udp.direct2eta(np.array(d))
            same(m, "direct2eta", p, dict(p), back, ep, T, f, tol, inp)
        else:
            a = udp.direct2alpha(np.array(x))
            other.update(enc="alpha", tof=[1, 2])
            same(m, "direct2alpha", p, other, a, ep, T, f, tol, inp)
            back = udp.alpha2direct(a)
            same(m, "alpha2direct", p, dict(p), back, ep, T, f, tol, inp)
            m.raises("conversion:refuses-encoding", ValueError, lambda: udp.eta2direct(y), inp)
            m.raises("conversion:refuses-encoding", ValueError, lambda: udp.direct2eta(y), inp)
        follow(m, rng, p, udp, y, x, ep, T, legs, rv, inp)
        # nor from one problem to another with the same names and numbers
        if p["kind"] == "kep" and rng.random() < 0.3:
            twin = dict(p)
            twin["seq"] = [named(rng, pl.get_name(), p["mu"], norm(st[0])) for pl, st in zip(p["seq"], rv)]
            try:
                price(twin, ep)
            except Exception:
                m.ev("twin:no-trajectory")
            else:
                check_objective(m, twin, build(twin).fitness(copy.deepcopy(y)), ep, T, lambda: show(twin, x), "twin")
                g = udp.fitness(copy.deepcopy(y))
                m.require("twin:leaves-the-first-alone", [float(v) for v in g] == [float(v) for v in f], inp)
        # nothing is remembered from one evaluation to the next
        if rng.random() < 0.4:
            g = build(p).fitness(copy.deepcopy(y))
            m.require("fitness:history-free", [float(v) for v in g] == [float(v) for v in f], inp)
            g = copy.deepcopy(udp).fitness(y)
            m.require("fitness:copied-problem", [float(v) for v in g] == [float(v) for v in f], inp)
            g = pickle.loads(pickle.dumps(udp)).fitness(y)
            m.require("fitness:pickled-problem", [float(v) for v in g] == [float(v) for v in f], inp)
        if rng.random() < 0.2:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                udp.pretty(y)
            q = re.search(r"Total DV:\s*([-+0-9.eE]+)", out.getvalue())
            if q:
                m.check("pretty:total", abs(float(q.group(1)) - float(f[0])), 1e-6 * abs(float(f[0])) + tol, inp)
        m.nontriv(p["enc"], n, x)
        m.sample(lambda: {"problem": show(p, x), "objective": float(f[0])})
    if not decided:
        m.ev("case-without-trajectory")


def same(m, what, p, other, z, ep, T, f, tol, inp):
    """The chromosome z of problem `other` encodes the same trajectory."""
    udp = build(other)
    m.require(what + ":dimension", len(z) == len(udp.get_bounds()[0]), inp)
    ep2, T2 = decode(other, z)
    total = abs(ep[0]) + math.fsum(T) + (p["tof"] if p["enc"] == "eta" else 0)
    err = max(abs(a - b) for a, b in zip(ep, ep2))
    m.check(what + ":epochs", err, 1e-12 * total, inp)
    g = udp.fitness(np.array([float(v) for v in z]))
    want, _, _, tol2 = spread(other, ep2)
    m.check(what + ":objective-of-it", abs(float(g[0]) - want), tol2, inp)
    sens = abs(want - price(p, ep)[0])
    m.check(what + ":objective", abs(float(g[0]) - float(f[0])), tol + tol2 + 2 * sens, inp)


def follow(m, rng, p, udp, y, x, ep, T, legs, rv, inp):
    """The trajectory as a planet."""
    sc = udp.to_planet(y)
    size = max(norm(r[0]) for r in rv)
    speed = max(max(norm(l[1]), norm(l[3])) for l in legs)
    times = [(ep[0], 0)]
    for k in range(len(legs)):
        for _ in range(2):
            times.append((rng.uniform(ep[k], ep[k + 1]), k))
        e = (ep[k + 1] - ep[k]) * 1e-9
        times.append((ep[k + 1] - e, k))
        if k:
            times.append((ep[k] + (ep[k + 1] - ep[k]) * 1e-9, k))
    moved = []
    for signs in ((1, -1), (-1, -1)):
        q = [e + signs[j % 2] * 4e-13 * (abs(e) + ep[-1] - ep[0]) for j, e in enumerate(ep)]
        moved.append((q, price(p, q)[1]))
    for t, k in times:
        d = (t - ep[k]) * DAY
        # what the rounding of the epochs moves
        h = 1e-12 * (abs(t) + ep[-1] - ep[0]) * DAY
        try:
            r1, v1 = pk.propagate_lagrangian(rv=[legs[k][0], legs[k][1]], tof=d, mu=p["mu"])
            r2, v2 = pk.propagate_lagrangian(rv=[legs[k][0], legs[k][1]], tof=d + h, mu=p["mu"])
            r3, v3 = pk.propagate_lagrangian(rv=[legs[k][0], [a * (1 + 1e-11) for a in legs[k][1]]], tof=d, mu=p["mu"])
            alt = [pk.propagate_lagrangian(rv=[l[k][0], l[k][1]], tof=(t - q[k]) * DAY, mu=p["mu"]) for q, l in moved]
        except RuntimeError:
            m.ev("rectilinear-arc")  # through the central body: nothing is promised there
            continue
        r, v = sc.eph(t)
        er = norm([a - b for a, b in zip(r, r1)])
        ev = norm([a - b for a, b in zip(v, v1)])
        br = 1e-7 * size + 20 * (norm([a - b for a, b in zip(r2, r1)]) + norm([a - b for a, b in zip(r3, r1)]) + sum(norm([a - b for a, b in zip(q[0], r1)]) for q in alt))
        bv = 1e-7 * speed + 20 * (norm([a - b for a, b in zip(v2, v1)]) + norm([a - b for a, b in zip(v3, v1)]) + sum(norm([a - b for a, b in zip(q[1], v1)]) for q in alt))
        if br > 1e-3 * size or bv > 1e-3 * speed:
            m.ev("ill-conditioned-arc")
            continue
        m.check("to_planet:position", er, br, lambda: dict(inp(), t=t))
        m.check("to_planet:velocity", ev, bv, lambda: dict(inp(), t=t))
    # it leaves and reaches the planets
    for k, t in enumerate(ep):
        q = t if k == 0 else t - 1e-9 * (ep[k] - ep[k - 1])
        if k:
            # how far the end of the arc moves when the departure velocity does, by its rounding
            try:
                a0, a1 = (pk.propagate_lagrangian(rv=[legs[k - 1][0], [a * g for a in legs[k - 1][1]]], tof=T[k - 1] * DAY, mu=p["mu"])[0] for g in (1, 1 + 1e-11))
            except RuntimeError:
                m.ev("rectilinear-arc")
                continue
            if norm([a - b for a, b in zip(a0, a1)]) > 1e-7 * size:
                m.ev("ill-conditioned-arc")
                continue
        r, _ = sc.eph(q)
        far = norm([a - b for a, b in zip(r, rv[k][0])])
        slack = 1e-9 * (ep[k] - ep[k - 1]) * DAY * speed if k else 0
        m.check("to_planet:meets-planets", far, 1e-5 * size + 10 * slack, lambda: dict(inp(), encounter=k))
        if p["enc"] != "direct" or any(v * 8 != round(v * 8) for v in x):
            continue
        r, v = sc.eph(t)
        m.check("to_planet:at-encounter", norm([a - b for a, b in zip(r, rv[k][0])]), 1e-5 * size, lambda: dict(inp(), encounter=k))
        sides = ([legs[k - 1][3]] if k else []) + ([legs[k][1]] if k < len(legs) else [])
        m.check("to_planet:at-encounter:velocity", min(norm([a - b for a, b in zip(v, w)]) for w in sides), 1e-5 * speed + 1e-6 * norm(v), lambda: dict(inp(), encounter=k))
    e = pk.epoch(ep[0] + 0.37 * (ep[-1] - ep[0]))
    try:
        a = sc.eph(e.mjd2000)
        m.require("to_planet:epoch-object", [list(q) for q in sc.eph(e)] == [list(q) for q in a], inp)
    except RuntimeError:
        m.ev("rectilinear-arc")
    span = ep[-1] - ep[0]
    for t in (ep[0] - 1e-6 * span, ep[0] - rng.uniform(0, 1000) - 1e-3, ep[-1] + 1e-6 * span, ep[-1] + rng.uniform(0, 1000) + 1e-3):
        m.raises("to_planet:refuses-epoch", ValueError, lambda: sc.eph(t), lambda: dict(inp(), t=t))
    for z in (list(x) + [0.5], list(x)[:-1]):
        m.raises("to_planet:refuses-length", ValueError, lambda: udp.to_planet(z), inp)


LEFT_OUT = object()  # an argument that is not given


def refusals(m, rng):
    p = make(rng)
    inp = lambda: show(p)
    good = dict(seq=list(p["seq"]), t0=list(p["t0"]), tof=copy.deepcopy(p["tof"]), vinf=p["vinf"], multi_objective=p["mo"], tof_encoding=p["enc"],
                orbit_insertion=p["insertion"], e_target=p["e"], rp_target=p["rp"])

    def bad(what, exc, **kw):
        g = copy.copy(good)
        g["t0"] = list(p["t0"])
        g.update(kw)
        g = {k: v for k, v in g.items() if v is not LEFT_OUT}
        m.raises("refuses:" + what, exc, lambda: pk.trajopt.mga(**g), inp)

    pk.trajopt.mga(**dict(good, t0=list(p["t0"])))
    mu = p["mu"] * rng.choice([1 + 1e-15 * 8, 2.0])
    odd = pk.planet(pk.udpla.keplerian(pk.epoch(0), [1e11, 0, 0, 0, 0, 0], mu, "odd", [1, 1, 1]))
    seq = list(p["seq"])
    seq[rng.randrange(len(seq))] = odd
    bad("different-central-bodies", ValueError, seq=seq)
    bad("encoding", ValueError, tof_encoding=rng.choice(["", "Direct", "alphas", "beta"]))
    bad("insertion-without-eccentricity", ValueError, orbit_insertion=True, e_target=rng.choice([None, LEFT_OUT]), rp_target=1e7)
    bad("insertion-without-pericentre", ValueError, orbit_insertion=True, e_target=0.5, rp_target=rng.choice([None, LEFT_OUT]))
    n = len(p["seq"]) - 1
    if p["enc"] == "direct":
        bad("tof", TypeError, tof=[[1, 2]] * (n + 1))
        bad("tof", TypeError, tof=[[2, 1]] * n)
        bad("tof", TypeError, tof=[[1, 2, 3]] * n)
        bad("tof", TypeError, tof=100.0)
    elif p["enc"] == "alpha":
        bad("tof", TypeError, tof=[1, 2, 3])
        bad("tof", TypeError, tof=100.0)
    else:
        bad("tof", TypeError, tof=[1, 2])
    m.nontriv("refusals", p["t0"])


def gym(m, rng, i):
    names = ["earth", "venus", "venus", "earth", "jupiter", "saturn"]
    seq = [pk.planet(pk.udpla.jpl_lp(b)) for b in names]
    tofs = {"direct": [[30, 400], [100, 470], [30, 400], [400, 2000], [1000, 6000]], "alpha": [4000.0, 7000.0], "eta": 7000.0}
    udps = {"direct": pk.trajopt.gym.cassini1, "alpha": pk.trajopt.gym.cassini1_a, "eta": pk.trajopt.gym.cassini1_n}
    for enc, udp in udps.items():
        p = {"kind": "jpl", "mu": seq[0].get_mu_central_body(), "seq": seq, "enc": enc, "vinf": 3.0, "mo": False, "insertion": True, "e": 0.98, "rp": 108950000.0,
             "t0": [-1000.0, 0.0], "tof": tofs[enc]}
        lb, ub = udp.get_bounds()
        inp = lambda: show(p)
        m.check("gym:bounds", max(abs(lb[0] + 1000), abs(ub[0])), 3e-11, inp)
        if enc == "direct":
            m.require("gym:bounds", [[a, b] for a, b in zip(lb[1:], ub[1:])] == tofs[enc], inp)
        elif enc == "alpha":
            m.require("gym:bounds", [lb[1], ub[1]] == tofs[enc], inp)
        info, name = udp.get_extra_info(), udp.get_name()
        m.require("gym:described", all(b in info.lower() for b in set(names)) and "cassini" in name.lower() and repr(udp) == name, inp)
        x = chromosome(p, rng)
        inp = lambda: show(p, x)
        ep, T = decode(p, x)
        if min(T) < 1:
            continue
        f = udp.fitness(np.array(x))
        check_objective(m, p, f, ep, T, inp, "gym:fitness")
    # old pykep's values, as the repository's own test has them
    x = [-554.5189290104555, 103.27184879471751, 335.41655259663474, 80.50258543604521, 862.0950563689543, 2865.018040480413]
    m.check("gym:fitness", abs(udps["direct"].fitness(x)[0] - 80400.08898184073), 1e-6, lambda: {"x": x})
    m.nontriv("gym", i, rng.random())


if __name__ == "__main__":
    pymon.drive(22, case)
