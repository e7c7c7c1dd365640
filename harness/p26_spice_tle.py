"""P26: planets backed by SPICE kernels or by two-line element sets return their sources' states, in SI, for as long as they live."""
import copy, fractions, gc, math, pickle
import numpy as np
import pykep as pk
import spiceypy
from sgp4.api import Satrec
import pymon
from pymon import logu, unit

F = fractions.Fraction
BODIES = ["SUN", "MERCURY BARYCENTER", "EARTH BARYCENTER", "JUPITER BARYCENTER", "MOON", "EARTH", "PHOBOS", "CASSINI", "CERES", "earth", "Pluto  Barycenter", "SSB", "IO"]
FRAMES = ["J2000", "ECLIPJ2000", "B1950", "GALACTIC", "eclipj2000"]
DE440 = pk.udpla.de440s.kernel_file()
DE440_BODIES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 199, 299, 301, 399]
# NAIF's published codes
IDS = {0: "SOLAR SYSTEM BARYCENTER", 1: "MERCURY BARYCENTER", 2: "VENUS BARYCENTER", 3: "EARTH BARYCENTER", 4: "MARS BARYCENTER", 5: "JUPITER BARYCENTER", 6: "SATURN BARYCENTER", 7: "URANUS BARYCENTER", 8: "NEPTUNE BARYCENTER",
       9: "PLUTO BARYCENTER", 10: "SUN", 199: "MERCURY", 299: "VENUS", 399: "EARTH", 301: "MOON", 499: "MARS", 401: "PHOBOS", 402: "DEIMOS", 599: "JUPITER", 501: "IO", 502: "EUROPA", 503: "GANYMEDE", 504: "CALLISTO", 699: "SATURN",
       601: "MIMAS", 602: "ENCELADUS", 603: "TETHYS", 604: "DIONE", 605: "RHEA", 606: "TITAN", 607: "HYPERION", 608: "IAPETUS", 799: "URANUS", 701: "ARIEL", 702: "UMBRIEL", 703: "TITANIA", 704: "OBERON", 705: "MIRANDA", 899: "NEPTUNE",
       801: "TRITON", 802: "NEREID", 999: "PLUTO", 901: "CHARON", 2000001: "CERES", 2000004: "VESTA", -85: ("LRO", "LUNAR RECON ORBITER", "LUNAR RECONNAISSANCE ORBITER"), -82: ("CAS", "CASSINI"), -61: "JUNO", -8: "WIND", -21: "SOHO"}


def seconds(mjd2000):
    """Ephemeris seconds past J2000 (noon) of days past midnight, without rounding, and the last bit that they may lose."""
    return (F(mjd2000) - F(1, 2)) * 86400


def source(body, frame, obs, t):
    """The kernel's state at mjd2000 t in SI and the error to expect of a correct reading of it."""
    et = float(seconds(t))
    s, _ = spiceypy._answer(body, et, frame, "NONE", obs)
    w, _ = spiceypy._answer(body, et + 1.0, frame, "NONE", obs)
    slip = abs(et) * 3e-16 + 86400 * abs(t) * 3e-16 + 1e-12
    big = 1e3 * max(np.abs(spiceypy._barycentric(spiceypy.bodn2c(b), et)[0]).max() for b in (body, obs))
    vbig = 1e3 * max(np.abs(spiceypy._barycentric(spiceypy.bodn2c(b), et)[1]).max() for b in (body, obs))
    tr = 1e-14 * big + 2 * slip * (1e3 * np.linalg.norm(w[:3] - s[:3]) + vbig)
    tv = 1e-14 * vbig + 2 * slip * (1e3 * np.linalg.norm(w[3:] - s[3:]) + 1e-3 * vbig)
    return s * 1000, np.array([tr] * 3 + [tv] * 3) + 1e-300


def close(m, key, got, want, tol, inp):
    g = np.array(got, dtype=float).ravel()
    if not m.require(key + ":size", g.shape == want.shape, inp, "%r" % (g.shape,)):
        return
    m.check(key, np.max(np.abs(g - want) / tol), 1.0, inp)


def spice_planet(m, rng, i):
    spiceypy.kclear()
    body, obs, frame = rng.choice(BODIES), rng.choice(BODIES), rng.choice(FRAMES)
    first, last = sorted(rng.uniform(-2e4, 4e4) for _ in range(2))
    half = rng.random() < 0.3
    paths = ["k%d-%d.bsp" % (i, k) for k in range(rng.randint(1, 3))]
    codes = [c for c in {spiceypy.bodn2c(body), spiceypy.bodn2c(obs), 5} if c != 0]
    for p in paths:
        spiceypy.declare(p, [], 0, 0)
    home = rng.choice(paths)
    spiceypy.declare(home, codes, float(seconds(first)) if half else -1e12, float(seconds(last)) if half else 1e12)
    inp = {"body": body, "frame": frame, "obs": obs, "paths": paths, "home": home, "coverage": [first, last] if half else None}
    many = rng.random() < 0.5
    if many:
        pk.utils.load_spice_kernels(paths if rng.random() < 0.5 else tuple(paths))
    else:
        for p in paths:
            pk.utils.load_spice_kernels(p)
    m.require("loaded", spiceypy.loaded() == paths, inp)
    u = pk.udpla.spice(body, frame, obs) if rng.random() < 0.5 else pk.udpla.spice(body=body, ref_frame=frame, obs=obs)
    p = pk.planet(u)
    m.require("spice:name", p.get_name() == body + " - SPICE", inp, p.get_name())
    info = p.get_extra_info()
    m.require("spice:info", all(x in info for x in (body, frame, obs)), inp, info)
    m.require("spice:ids", (u.naifid, u.obs_naifid, u.frame_naifid) == (spiceypy.bodn2c(body), spiceypy.bodn2c(obs), spiceypy.irfnum(frame)), inp)
    ts = [rng.uniform(first, last) if rng.random() < 0.8 else float(rng.randint(math.ceil(first), max(math.ceil(first), math.floor(last)))) for _ in range(rng.choice([1, 2, 7]))]
    ts = [t for t in ts if not half or first + 1e-5 < t < last - 1e-5]
    for t in ts:
        want, tol = source(body, frame, obs, t)
        close(m, "spice:eph", p.eph(t), want, tol, inp)
        close(m, "spice:udpla-eph", u.eph(t), want, tol, inp)
        e = pk.epoch(t)
        if not half or first < e.mjd2000 < last:
            close(m, "spice:eph-epoch", p.eph(e), *source(body, frame, obs, e.mjd2000), inp)
    if ts:
        want = [source(body, frame, obs, t) for t in ts]
        w, tol = np.array([x[0] for x in want]), np.array([x[1] for x in want])
        form = rng.choice([list, tuple, np.array])
        for k, f in (("spice:eph_v", p.eph_v), ("spice:udpla-eph_v", u.eph_v)):
            if k == "spice:eph_v" and form is tuple:
                form = list
            g = f(form(ts))
            m.require(k + ":shape", isinstance(g, np.ndarray) and g.shape == (len(ts), 6), inp, repr(getattr(g, "shape", g)))
            close(m, k, g, w.ravel(), tol.ravel(), dict(inp, ts=ts))
        # the same body seen from another frame: only a rotation between them
        other = rng.choice(FRAMES)
        e = pk.epoch(ts[0])
        t0 = ts[0]
        R = pk.utils.rotation_matrix(frame, other, e)
        v = pk.planet(pk.udpla.spice(body, other, obs)).eph(t0)
        m.check("rotation:same-state", max(np.linalg.norm(R @ np.array(a) - np.array(b)) / (1e-12 * (np.linalg.norm(a) + s * 1e13)) for a, b, s in zip(p.eph(t0), v, (source(body, frame, obs, t0)[1][0], source(body, frame, obs, t0)[1][3]))), 1.0, inp)
        # a turning frame depends on the epoch
        R = pk.utils.rotation_matrix("J2000", "IAU_EARTH", e)
        et = float(seconds(e.mjd2000))
        m.check("rotation:epoch", np.abs(R - spiceypy.pxform("J2000", "IAU_EARTH", et)).max(), 1e-2 * 7.3e-4 + 1e-15 * abs(et), inp)
        m.check("rotation:default-epoch", np.abs(pk.utils.rotation_matrix("J2000", "IAU_EARTH") - spiceypy.pxform("J2000", "IAU_EARTH", -43200.0)).max(), 1e-12, inp)
    if half and spiceypy.bodn2c(body) != spiceypy.bodn2c(obs):
        m.raises("spice:refuses-outside-coverage", Exception, lambda: p.eph(rng.choice([first - 1, last + 1])), inp)
        m.raises("spice:refuses-outside-coverage-v", Exception, lambda: p.eph_v([*ts, rng.choice([first - 1, last + 1])]), inp)
    m.require("spice:undefined-parameters", (p.get_mu_central_body(), p.get_mu_self(), p.get_radius(), p.get_safe_radius()) == (-1, -1, -1, -1), inp)
    for f in (p.period, p.elements):
        m.raises("spice:no-central-body:refuses", NotImplementedError, lambda: f(ts[0] if ts else 0.0), inp)
    pk.utils.unload_spice_kernels(paths if many else home)
    if not many:
        m.require("unloaded", spiceypy.loaded() == [x for x in paths if x != home], inp)
        for x in paths:
            pk.utils.unload_spice_kernels(x)
    m.require("unloaded:all", not spiceypy.loaded(), inp)
    if any(spiceypy.bodn2c(b) for b in (body, obs)) and ts:
        m.raises("spice:refuses-not-loaded", Exception, lambda: p.eph(ts[0]), inp)
    m.nontriv(body, frame, obs, ts)


def de440(m, rng, i):
    """Any history of planets made, copied, stored and destroyed: those alive answer, and the kernel goes with the last."""
    spiceypy.kclear()
    spiceypy.declare(DE440, DE440_BODIES)
    by_user = rng.randint(0, 2)
    for _ in range(by_user):
        pk.utils.load_spice_kernels(DE440)
    alive, log = [], []
    inp = {"by-user": by_user, "log": log}

    def show(k):
        p, body, frame, obs = alive[k]
        t = rng.uniform(-1e4, 2e4)
        want, tol = source(body, frame, obs, t)
        try:
            if rng.random() < 0.7:
                close(m, "de440s:eph", p.eph(t), want, tol, inp)
            else:
                close(m, "de440s:eph_v", p.eph_v([t]), want, tol, inp)
        except Exception as e:
            m.require("de440s:answers-while-alive", False, inp, "planet %d raised %s: %s" % (k, type(e).__name__, e))
        else:
            m.require("de440s:answers-while-alive", True, inp)
    for step in range(rng.randint(2, 9)):
        op = rng.choice(["make", "make-default", "wrap", "copy", "deepcopy", "pickle", "drop", "drop", "refused", "extract", "user-load", "user-unload"])
        k = rng.randrange(len(alive)) if alive else -1
        if k < 0 and op in ("wrap", "copy", "deepcopy", "pickle", "drop", "extract"):
            op = "make"
        log.append((op, k))
        if op == "make":
            body, obs = (rng.choice(["SUN", "EARTH", "MOON", "JUPITER BARYCENTER", "SSB"]) for _ in range(2))
            frame = rng.choice(FRAMES)
            form = rng.randint(0, 1)
            u = pk.udpla.de440s(body, frame, obs) if form else pk.udpla.de440s(obs=obs, ref_frame=frame, body=body)
            m.require("de440s:name", u.get_name() == body + " - de440s", inp)
            alive.append((u, body, frame, obs))
            u = None
        elif op == "make-default":
            alive.append((pk.udpla.de440s(), "EARTH BARYCENTER", "ECLIPJ2000", "SSB"))
        elif op == "drop":
            del alive[k]
            gc.collect()
        elif op == "refused":
            bad = rng.choice([("NOWHERE", "J2000", "SSB"), ("EARTH", "NOFRAME", "SSB"), ("EARTH", "J2000", "NOBODY")])
            m.raises("de440s:refuses", (NameError, spiceypy.SpiceyError), lambda: pk.udpla.de440s(*bad), inp)
            gc.collect()
        elif op == "user-load":
            pk.utils.load_spice_kernels(DE440)
            by_user += 1
        elif op == "user-unload":
            if by_user:
                pk.utils.unload_spice_kernels(DE440)
                by_user -= 1
        else:
            p, body, frame, obs = alive[k]
            if op == "wrap":
                q = pk.planet(p) if not isinstance(p, pk.planet) else copy.copy(p)
            elif op == "extract":
                q = p.extract(pk.udpla.de440s) if isinstance(p, pk.planet) else p
            elif op == "pickle":
                if isinstance(p, pk.planet):  # planets coded in Python are not serialized
                    p = p.extract(pk.udpla.de440s)
                q = pickle.loads(pickle.dumps(p, protocol=rng.randint(2, pickle.HIGHEST_PROTOCOL)))
            else:
                q = getattr(copy, op)(p)
            alive.append((q, body, frame, obs))
            p = q = None
        for k in range(len(alive)):
            if rng.random() < 0.6:
                show(k)
        m.ev("op:" + op)
    for k in range(len(alive)):
        show(k)
    m.require("de440s:lists", pk.udpla.de440s.kernel_file() == DE440 and [spiceypy.bodn2c(b) for b in pk.udpla.de440s.body_list() if b in spiceypy._NAMES] == [c for c in DE440_BODIES if IDS[c] in spiceypy._NAMES], inp)
    if alive and not isinstance(alive[-1][0], pk.planet):
        m.require("de440s:lists-of-instance", alive[-1][0].kernel_file() == DE440 and list(alive[-1][0].body_list()) == list(pk.udpla.de440s.body_list()), inp)
    m.nontriv(log)
    del alive[:]
    gc.collect()
    m.require("de440s:unloaded-when-not-needed", spiceypy.loaded() == [DE440] * by_user, inp, "%d loads left, the user made %d" % (len(spiceypy.loaded()), by_user))


def names(m, rng, i):
    spiceypy.kclear()
    m.require("version", pk.utils.spice_version() == "CSPICE_N0067", {})
    c = rng.choice(list(IDS))
    want = IDS[c]
    m.require("naifid2name", pk.utils.naifid2name(c) in (want if isinstance(want, tuple) else (want,)), {"id": c}, pk.utils.naifid2name(c))
    m.require("naifid2name:unknown", pk.utils.naifid2name(rng.choice([12345678, -99999, 777777])) == "Not Found", {})
    b = rng.choice(BODIES)
    m.require("name2naifid", pk.utils.name2naifid(b) == spiceypy.bodn2c(b), {"name": b})
    m.raises("name2naifid:refuses", spiceypy.NotFoundError, lambda: pk.utils.name2naifid("NOBODY"), {})
    f = rng.choice(FRAMES)
    m.require("framename2naifid", pk.utils.framename2naifid(f) == spiceypy.irfnum(f), {"name": f})
    m.raises("framename2naifid:refuses", NameError, lambda: pk.utils.framename2naifid(rng.choice(["NOFRAME", "", "J2001"])), {})
    bodies = rng.sample([10, 199, 301, 399, 5, 606, -82, 2000001], rng.randint(1, 5))
    spiceypy.declare("i%d.bsp" % i, bodies)
    got = pk.utils.inspect_spice_kernel("i%d.bsp" % i)
    m.require("inspect", type(got) is list and sorted(got) == sorted(bodies), {"bodies": bodies}, repr(got))
    m.raises("load:refuses", spiceypy.SpiceyError, lambda: pk.utils.load_spice_kernels("missing.bsp"), {})
    for bad, err in ((("NOBODY", "J2000", "SUN"), spiceypy.NotFoundError), (("SUN", "J2000", "NOBODY"), spiceypy.NotFoundError), (("SUN", "NOFRAME", "EARTH"), NameError)):
        m.raises("spice:refuses", err, lambda: pk.udpla.spice(*bad), {"args": bad})
    m.nontriv(c, b, f, bodies)


def checksum(l):
    return l + str(sum(int(ch) if ch.isdigit() else 1 if ch == "-" else 0 for ch in l) % 10)


def a_tle(rng):
    year, day = rng.choice([rng.randint(57, 99), rng.randint(0, 56), 23, 0, 57, 56]), rng.choice([1, 365, rng.randint(1, 365)])
    frac = rng.choice([0, 50000000, 99999999, 1, rng.randint(0, 99999999)])
    num = rng.randint(1, 99999)
    drag = rng.choice([" 00000+0", " 65841-3", "-11455-2", " 99999+0"])
    l1 = "1 %05dU 97051L   %02d%03d.%08d  .00002095  00000+0 %s 0  999" % (num, year, day, frac, drag)
    n = rng.uniform(0.3, 16.2)
    l2 = "2 %05d %8.4f %8.4f %07d %8.4f %8.4f %11.8f%5d" % (num, rng.uniform(0, 180), rng.uniform(0, 359.9), int(10 ** rng.uniform(0, 6.9)) if n < 12 else rng.randint(0, 30000), rng.uniform(0, 359.9), rng.uniform(0, 359.9), n, rng.randint(0, 99999))
    l1, l2 = checksum(l1), checksum(l2)
    import datetime
    y = year + (2000 if year < 57 else 1900)
    days = (datetime.date(y, 1, 1) - datetime.date(2000, 1, 1)).days + day - 1
    return l1, l2, days + F(frac, 10 ** 8)


def tle(m, rng, i):
    l1, l2, ref = a_tle(rng)
    inp = {"line1": l1, "line2": l2}
    nl = rng.choice(["", "\n"])
    u = pk.udpla.tle(l1 + nl, l2 + nl) if rng.random() < 0.5 else pk.udpla.tle(line2=l2 + nl, line1=l1 + nl)
    p = pk.planet(u)
    sat = Satrec.twoline2rv(l1, l2)
    m.check("tle:ref-epoch", abs(u.ref_epoch.mjd2000 - float(ref)), 1.2e-9, inp, "observed %r" % u.ref_epoch)
    m.require("tle:name", l1[2:7] in p.get_name() and "SGP4" in p.get_name(), inp)
    m.require("tle:info", l1 in p.get_extra_info() and l2 in p.get_extra_info(), inp, p.get_extra_info())
    m.require("tle:mu", p.get_mu_central_body() == pk.MU_EARTH, inp)
    ts, want = [], []
    for _ in range(rng.choice([1, 2, 5])):
        t = rng.choice([float(ref), float(ref) + rng.uniform(-30, 30), float(ref) + rng.uniform(-3000, 3000), float(math.floor(ref)) + rng.choice([0, 0.5]), math.nextafter(float(math.floor(ref)) + 0.5, rng.choice([-1e9, 1e9]))])
        x = (F(t) + F(4903089, 2))
        d = math.floor(x)
        e, r, v = sat.sgp4(float(d), float(x - d))
        e2, r2, v2 = sat.sgp4(float(d), float(x - d) + 1e-9)
        ts.append(t)
        w = np.array([*r, *v]) * 1000
        # the Julian date is a double: it resolves 4e-5 seconds
        s = np.abs(np.array([*r2, *v2]) * 1000 - w)
        tol = np.array([2 * max(s[:3])] * 3 + [2 * max(s[3:])] * 3) + 1e-12 * np.array([np.linalg.norm(w[:3])] * 3 + [np.linalg.norm(w[3:])] * 3)
        want.append((w, tol, e))
        for key, f in (("tle:eph", p.eph), ("tle:udpla-eph", u.eph)):
            g = f(t)
            if e:
                m.require(key + ":no-answer-is-nan", np.all(np.isnan(np.array(g, dtype=float))) and u.e != 0, inp)
            elif e2 == 0:
                close(m, key, g, w, tol, dict(inp, t=t))
                m.require(key + ":error-code", u.e == 0, inp)
        q = pk.epoch(t)
        if not e and not e2 and abs(q.mjd2000 - t) < 1e-10:
            close(m, "tle:eph-epoch", p.eph(q), w, tol * 2, dict(inp, t=t))
    for key, f in (("tle:eph_v", p.eph_v), ("tle:udpla-eph_v", u.eph_v)):
        g = f(rng.choice([list, np.array])(ts))
        if m.require(key + ":shape", isinstance(g, np.ndarray) and g.shape == (len(ts), 6), inp):
            for k, (w, tol, e) in enumerate(want):
                if e:
                    m.require(key + ":no-answer-is-nan", bool(np.all(np.isnan(g[k]))), inp)
                elif np.all(np.isfinite(tol)):
                    m.check(key, np.max(np.abs(g[k] - w) / tol), 1.0, dict(inp, ts=ts))
    for bad in ((l2, l1), (l1[:30], l2), ("", "")):
        m.raises("tle:refuses", ValueError, lambda: pk.udpla.tle(*bad), inp)
    m.nontriv(l1, l2, ts)


KINDS = [spice_planet, tle, de440, tle, spice_planet, de440, names, tle]


def case(m, rng, i):
    only = m.extra.get("only")
    (globals()[only] if only else KINDS[i % len(KINDS)])(m, rng, i)


if __name__ == "__main__":
    pymon.drive(26, case)
