"""P27: what pykep returns is what the C++ library returns, and what Python user-defined planets return."""
import contextlib, copy, ctypes, datetime, gc, io, itertools, math, os, pickle, struct, sys, time
import numpy as np
import pykep as pk
import pymon
from pymon import logu, unit

_lib = ctypes.CDLL(pk.core.__file__)
_fn = _lib.vf_ref
_fn.restype = ctypes.c_long
_out = (ctypes.c_double * 200000)()
_txt = ctypes.create_string_buffer(20000)
EXC = {-1: ValueError, -2: ValueError, -3: IndexError, -4: RuntimeError}
EL = [pk.el_type.KEP_M, pk.el_type.KEP_F, pk.el_type.MEQ, pk.el_type.MEQ_R, pk.el_type.POSVEL]


def ref(name, *args, text=""):
    """The C++ library's answer: a list of values (its text in .text) or the Python exception that it maps to."""
    a = np.array([float(x) for x in flat(args)], dtype=float)
    n = _fn(name.encode(), text.encode(), a.ctypes.data_as(ctypes.POINTER(ctypes.c_double)), ctypes.c_long(len(a)), _out, ctypes.c_long(len(_out)), _txt, ctypes.c_long(len(_txt)))
    if n == -9:
        raise AssertionError("vf_ref misused: " + name)
    if n < 0:
        return EXC[n]
    return Vals(_out[:n], _txt.value.decode("utf-8", "replace"))


class Vals(list):
    def __init__(self, v, text):
        super().__init__(v)
        self.text = text


def flat(x):
    if isinstance(x, np.ndarray):
        return [float(v) for v in x.ravel()]
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in flat(y)]
    return [] if x is None else [x]


def bits(x):
    x = float(x)
    return "nan" if x != x else struct.pack("<d", x)


def same(a, b):
    return len(a) == len(b) and all(bits(x) == bits(y) for x, y in zip(a, b))


def got(fn):
    try:
        return fn()
    except Exception as e:
        return e


class Case:
    def __init__(self, m, what, inp):
        self.m, self.what, self.inp = m, what, inp

    def agree(self, key, fn, want, shape=None):
        """fn() gives the values (or the exception) that the C++ library gives."""
        r = got(fn)
        if isinstance(want, type):
            self.m.ev("refused:" + self.what)
            return self.m.require(key + ":refuses", isinstance(r, want), self.inp, "expected %s, observed %r" % (want.__name__, r))
        if isinstance(r, Exception):
            self.m.require(key, False, self.inp, "raised %s: %s, the C++ library answers %r" % (type(r).__name__, r, list(want)[:8]))
            return None
        ok = same(flat(r), want)
        self.m.require(key, ok, self.inp, "observed %r, the C++ library answers %r" % (flat(r)[:12], list(want)[:12]) if not ok else "")
        if shape is not None:
            s = shape_of(r)
            self.m.require(key + ":shape", s == shape, self.inp, "shape %r, expected %r" % (s, shape))
        return r

    def require(self, key, ok, note=""):
        return self.m.require(key, ok, self.inp, note)


def shape_of(r):
    if isinstance(r, np.ndarray):
        return r.shape
    if isinstance(r, tuple):
        return tuple(shape_of(x) for x in r)
    if isinstance(r, list):
        return [shape_of(x) for x in r]
    return None


def seq(rng, v):
    """The same values as a list, a tuple or a numpy array."""
    k = rng.randrange(4)
    if k == 0:
        return tuple(seq(rng, x) if isinstance(x, (list, tuple)) else x for x in v)
    if k == 1:
        return np.array(v, dtype=float)
    return [seq(rng, x) if isinstance(x, (list, tuple)) else x for x in v]


def call(rng, fn, params):
    """fn called by position, by keyword and with defaults, in a random mixture. params: (name, value, default or REQ). Returns (thunk, values)."""
    k = rng.randint(0, len(params))
    pos, kw, vals = [], {}, []
    for i, (n, v, d) in enumerate(params):
        if i < k:
            pos.append(v)
        elif d is not REQ and rng.random() < 0.25:
            v = d
        else:
            kw[n] = v
        vals.append(v)
    items = list(kw.items())
    rng.shuffle(items)
    return (lambda: fn(*pos, **dict(items))), vals


REQ = object()


def clones(rng, x):
    yield "copy", lambda: copy.copy(x)
    yield "deepcopy", lambda: copy.deepcopy(x)
    for p in rng.sample(range(2, pickle.HIGHEST_PROTOCOL + 1), 2):
        yield "pickle", lambda p=p: pickle.loads(pickle.dumps(x, p))


def state(rng, mu=1.0, size=1.0):
    r = size * logu(rng, 0.2, 5)
    return [[x * r for x in unit(rng)], [x * math.sqrt(mu / r) * rng.uniform(0.1, 1.6) for x in unit(rng)]]


def odd(rng, x):
    """x, now and then something that must not be accepted."""
    return rng.choice([0.0, -1.0, -x, math.nan, math.inf]) if rng.random() < 0.03 else x


# ---------------------------------------------------------------------------------------------------------------- cases
CONSTANTS = ["AU", "CAVENDISH", "MU_SUN", "MU_EARTH", "EARTH_VELOCITY", "EARTH_J2", "EARTH_RADIUS", "RAD2DEG", "DEG2RAD", "DAY2SEC", "SEC2DAY", "DAY2YEAR", "G0", "CR3BP_EARTH_MOON"]
ANOMALIES = ["m2e", "e2m", "m2f", "f2m", "e2f", "f2e", "n2h", "h2n", "n2f", "f2n", "h2f", "f2h", "zeta2f", "f2zeta"]


def constants(m, rng, i):
    c = Case(m, "constant", {})
    for n in CONSTANTS:
        v = getattr(pk, n)
        c.require("constant", isinstance(v, float) and same([v], ref("constant:" + n)), "%s is %r" % (n, v))
    known = {"RAD2DEG": 180 / math.pi, "DEG2RAD": math.pi / 180, "DAY2SEC": 86400.0, "SEC2DAY": 1 / 86400.0, "DAY2YEAR": 1 / 365.25, "G0": 9.80665, "AU": 149597870700.0}
    for n, v in known.items():
        m.check("constant:value", abs(getattr(pk, n) - v), 1e-9 * v, {"name": n})
    c.require("enum", [int(e) for e in EL] == [0, 1, 2, 3, 4] and len({str(e) for e in EL}) == 5, repr(EL))
    j = pk.epoch.julian_type
    c.require("enum", pk.epoch(0., j.MJD2000).mjd2000 == 0 and pk.epoch(0., j.MJD).mjd == 0 and pk.epoch(0., j.JD).jd == 0)


def anomalies(m, rng, i):
    n = rng.choice(ANOMALIES)
    hyp = n in ("n2h", "h2n", "n2f", "f2n", "h2f", "f2h", "zeta2f", "f2zeta")
    ecc = lambda: logu(rng, 1.0001, 50) if hyp else rng.choice([0.0, rng.random(), 1 - logu(rng, 1e-6, 1)])
    x = lambda: rng.choice([0.0, rng.uniform(-3.1, 3.1), rng.uniform(-3.1, 3.1), float(rng.randint(-3, 3)), rng.uniform(-40, 40)]) if not hyp or n in ("n2h", "n2f") else rng.uniform(-1.5, 1.5)
    a, e = x(), ecc()
    c = Case(m, "anomaly", {"fn": n, "x": a, "e": e})
    f, fv = getattr(pk, n), getattr(pk, n + "_v")
    c.agree("anomaly", lambda: f(a, e), ref("anomaly:" + n, a, e))
    if a == int(a) and rng.random() < 0.5:
        c.agree("anomaly:int", lambda: f(int(a), e), ref("anomaly:" + n, a, e))
    # vectorised, with numpy's broadcasting
    k, l = rng.randint(0, 5), rng.randint(1, 4)
    sx, se = rng.choice([((k,), ()), ((), (k,)), ((k,), (k,)), ((l, k), (k,)), ((l, 1), (k,)), ((l, k), ()), ((), ()), ((1,), (k,)), ((2, l, k), (l, k))])
    X = np.array([x() for _ in range(int(np.prod(sx)))], dtype=float).reshape(sx)
    E = np.array([ecc() for _ in range(int(np.prod(se)))], dtype=float).reshape(se)
    if rng.random() < 0.3 and X.ndim > 1:
        X = np.asfortranarray(X)
    elif rng.random() < 0.2 and X.ndim == 1 and k:
        X = np.repeat(X, 2)[::2]
    shape = np.broadcast_shapes(sx, se)
    bx, be = np.broadcast_to(X, shape).ravel(), np.broadcast_to(E, shape).ravel()
    want = [v for p, q in zip(bx, be) for v in ref("anomaly:" + n, p, q)]
    arg = (lambda v: v.tolist() if rng.random() < 0.3 else v)
    ax, ae = arg(X), arg(E)
    c = Case(m, "anomaly_v", {"fn": n + "_v", "x": X, "e": E})
    r = c.agree("anomaly_v", lambda: fv(ax, ae), want)
    c.require("anomaly_v:shape", np.shape(r) == shape, "shape %r, expected %r" % (np.shape(r), shape))
    if k > 1 and rng.random() < 0.2:
        c.require("anomaly_v:refuses", isinstance(got(lambda: fv(np.zeros(k), np.full(k + 1, 0.5))), ValueError), "shapes that do not broadcast")
    m.nontriv(n, a, e)


def elements(m, rng, i):
    mu = logu(rng, 1e-3, 1e20)
    mu = odd(rng, mu)
    size = logu(rng, 1e-2, 1e12)
    rv = state(rng, abs(mu) if math.isfinite(mu) and mu else 1.0, size)
    par = [size, rng.random(), rng.uniform(0, 3.1), rng.uniform(0, 6), rng.uniform(0, 6), rng.uniform(-3, 3)]
    if rng.random() < 0.3:
        par[0], par[1] = -par[0], 1 + logu(rng, 1e-3, 10)
        par[5] = rng.uniform(-1, 1) * math.acos(-1 / par[1]) * 0.95
    if rng.random() < 0.05:
        par[1] = rng.choice([2.0, 0.5, -0.1])
    retro = rng.random() < 0.4
    eq = [size, rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(-3, 3)]
    c = Case(m, "elements", {"mu": mu, "rv": rv, "par": par, "eq": eq, "retro": retro})
    s = lambda v: seq(rng, v)
    c.agree("ic2par", lambda: pk.ic2par(s(rv), mu), ref("elements:ic2par", rv, mu))
    c.agree("par2ic", lambda: pk.par2ic(s(par), mu), ref("elements:par2ic", par, mu), [[None] * 3, [None] * 3])
    c.agree("ic2eq", lambda: pk.ic2eq(s(rv), mu, retro), ref("elements:ic2eq", rv, mu, retro))
    c.agree("eq2ic", lambda: pk.eq2ic(s(eq), mu, retro), ref("elements:eq2ic", eq, mu, retro), [[None] * 3, [None] * 3])
    c.agree("par2eq", lambda: pk.par2eq(s(par), retro), ref("elements:par2eq", par, retro))
    c.agree("eq2par", lambda: pk.eq2par(s(eq), retro), ref("elements:eq2par", eq, retro))
    if rng.random() < 0.1:
        bad = rng.choice([par[:5], par + [1.0], [par], "elements", None, [par[0], "e"] + par[2:]])
        c.require("wrong-type:refuses", isinstance(got(lambda: pk.par2ic(bad, 1.0)), TypeError), "par2ic(%r)" % (bad,))
        c.require("wrong-type:refuses", isinstance(got(lambda: pk.ic2par(par, 1.0)), TypeError), "ic2par of six numbers")
    m.nontriv(rv, par, eq)


Y2K = datetime.datetime(2000, 1, 1)
JT = [pk.epoch.julian_type.MJD2000, pk.epoch.julian_type.MJD, pk.epoch.julian_type.JD]


def us(d):
    return (d.days * 86400 + d.seconds) * 1000000 + d.microseconds


def epochs(m, rng, i):
    kind = rng.randrange(5)
    text = ""
    if kind < 3:
        x = rng.choice([0.0, rng.uniform(-40000, 40000), float(rng.randint(-40000, 40000)), logu(rng, 1e-9, 1e7) * rng.choice([-1, 1]), rng.choice([math.nan, math.inf, 1e300, -1e12]) if rng.random() < 0.2 else 1.5])
        if kind == 2 and abs(x) < 1e6:
            x += 2451544.5
        arg = rng.choice([x, x, np.float64(x)])
        if math.isfinite(x) and x == int(x) and abs(x) < 2 ** 31 and rng.random() < 0.5:
            arg = int(x)
        mk = rng.choice([lambda: pk.epoch(arg, JT[kind]), lambda: pk.epoch(when=arg, julian_type=JT[kind])] + ([lambda: pk.epoch(arg), lambda: pk.epoch(when=arg)] if kind == 0 else []))
        rec, inp = [kind, x], {"number": x, "type": str(JT[kind])}
    elif kind == 3:
        y, mo, d, h, mi, s, u = rng.randint(1, 9999), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 999999)
        text = rng.choice(["%04d-%02d" % (y, mo), "%04d-%02d-%02d" % (y, mo, d), "%04d-%02d-%02dT%02d" % (y, mo, d, h), "%04d-%02d-%02dT%02d:%02d" % (y, mo, d, h, mi),
                           "%04d-%02d-%02dT%02d:%02d:%02d" % (y, mo, d, h, mi, s), "%04d-%02d-%02dT%02d:%02d:%02d.%06d" % (y, mo, d, h, mi, s, u)])
        if rng.random() < 0.1:
            text = rng.choice(["", "hello", "2000-13", "2000-02-30", "20000101", "2000-01-01T99"])
        mk = rng.choice([lambda: pk.epoch(text), lambda: pk.epoch(when=text), lambda: pk.epoch(text, pk.epoch.string_format.ISO), lambda: pk.epoch(when=text, string_format=pk.epoch.string_format.ISO)])
        rec, inp = [3], {"text": text}
    else:
        dt = datetime.datetime(rng.choice([1, 1582, 1969, 1970, 2000, 9999, rng.randint(1, 9999)]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 1, 999999, rng.randint(0, 999999)]))
        mk = rng.choice([lambda: pk.epoch(dt), lambda: pk.epoch(when=dt)])
        rec, inp = [4, dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, dt.microsecond], {"datetime": str(dt)}
    c = Case(m, "epoch", inp)
    want = ref("epoch:", *rec, text=text)
    r = c.agree("epoch", lambda: (lambda e: [e.mjd2000, e.mjd, e.jd])(mk()), want)
    if isinstance(want, type) or r is None:
        return m.nontriv(rec, text)
    e = mk()
    c.require("epoch:repr", repr(e) == want.text and str(e) == want.text, "%r, the C++ library prints %r" % (repr(e), want.text))
    if kind == 4:
        m.check("epoch:datetime", abs(e.mjd2000 - us(dt - Y2K) / 86400e6), 4e-16 * abs(e.mjd2000), inp)
    for how, f in clones(rng, e):
        c.agree("epoch:" + how, lambda: (lambda q: [q.mjd2000, q.mjd, q.jd, float(q == e), float(q != e), float(q is e)])(f()), list(want) + [1.0, 0.0, 0.0])
    # days, as numbers of any kind; datetime.timedelta
    x = rng.choice([0.0, rng.uniform(-1000, 1000), logu(rng, 1e-12, 1e5), float(rng.randint(-400, 400)), math.nan if rng.random() < 0.1 else 1.0])
    arg = rng.choice([x, np.float64(x)] + ([int(x)] if math.isfinite(x) and x == int(x) else []))
    c = Case(m, "epoch arithmetic", dict(inp, days=x, given=repr(type(arg))))
    c.agree("epoch:days", lambda: (lambda q: [q.mjd2000, q.mjd, q.jd])(e + arg), ref("epoch:days+", *rec, x, text=text))
    c.agree("epoch:days", lambda: (lambda q: [q.mjd2000, q.mjd, q.jd])(e - arg), ref("epoch:days-", *rec, x, text=text))
    td = datetime.timedelta(days=rng.choice([0, rng.randint(-9000, 9000)]), seconds=rng.randint(0, 86399), microseconds=rng.choice([0, 1, 999999, rng.randint(0, 999999)]))
    c = Case(m, "epoch arithmetic", dict(inp, timedelta=repr(td)))
    for sign, f, op in ((1, lambda: e + td, "epoch:secs+"), (-1, lambda: e - td, "epoch:secs-")):
        c.agree("epoch:timedelta", lambda: (lambda q: [q.mjd2000, q.mjd, q.jd])(f()), ref(op, *rec, td.total_seconds(), text=text))
        if abs(e.mjd2000) < 4e6:
            q = got(f)
            if isinstance(q, pk.epoch):  # to the microsecond, by exact arithmetic on what a double of days holds
                a, b = round(e.mjd2000 * 86400e6), round(q.mjd2000 * 86400e6)
                m.check("epoch:timedelta-exact", abs(b - a - sign * us(td)), 2 + 86400e6 * 4.5e-16 * (abs(e.mjd2000) + abs(q.mjd2000)), c.inp)
    # order
    o = pk.epoch(e.mjd2000 + rng.choice([0.0, 0.0, 1.0, -1.0, logu(rng, 1e-10, 1e4)])) if abs(e.mjd2000) < 1e7 else e
    if abs(e.mjd2000) < 1e7 and rng.random() < 0.3:
        o = e + datetime.timedelta(microseconds=rng.choice([-1, 0, 1]))
    less, eq = o - datetime.timedelta(0), None
    d = None
    for name, op in (("lt", "__lt__"), ("gt", "__gt__"), ("le", "__le__"), ("ge", "__ge__"), ("eq", "__eq__"), ("ne", "__ne__")):
        c.require("epoch:compare", type(getattr(e, op)(o)) is bool, name)
    truth = (e < o, e == o, e > o)
    c.require("epoch:compare", sum(truth) == 1 and (e <= o) == (not truth[2]) and (e >= o) == (not truth[0]) and (e != o) == (not truth[1]) and (o > e) == truth[0] and (o < e) == truth[2], repr(truth))
    if abs(e.mjd2000 - o.mjd2000) > 1e-9:
        c.require("epoch:order", (e < o) == (e.mjd2000 < o.mjd2000), "%r %r" % (e, o))
    if rng.random() < 0.02:
        a = time.time()
        n = pk.epoch.now()
        b = time.time()
        x = n.mjd2000 * 86400 + 946684800
        c.require("epoch:now", a - 1e-3 <= x <= b + 1e-3, "%r between %r and %r" % (x, a, b))
    if rng.random() < 0.1:
        bad = rng.choice([None, [], datetime.timedelta(1), datetime.date(2000, 1, 1), {}])
        c.require("wrong-type:refuses", isinstance(got(lambda: pk.epoch(bad)), TypeError), "epoch(%r)" % (bad,))
    m.nontriv(rec, text, x)


JPL = ["mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune"]


def cpp_planet(rng):
    """(planet, the recipe of the same planet for ref, text, udpla, input)"""
    kind = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6])
    if kind == 0:
        u = pk.udpla.null_udpla()
        return pk.planet(u), [0], "", u, {"udpla": "null"}
    if kind == 1:
        n = rng.choice(JPL)
        n2 = "".join(rng.choice([ch, ch.upper()]) for ch in n)
        u = rng.choice([lambda: pk.udpla.jpl_lp(n2), lambda: pk.udpla.jpl_lp(body=n2)] + ([lambda: pk.udpla.jpl_lp()] if n == "earth" else []))()
        return pk.planet(u), [1], n2 if n != "earth" else "earth", u, {"udpla": "jpl_lp", "body": n2}
    mu, size = logu(rng, 1e-3, 1e20), logu(rng, 1e-2, 1e12)
    t = rng.choice([0.0, rng.uniform(-9000, 9000)])
    if kind == 2:
        e = state(rng, mu, size)
    elif kind in (3, 4):
        e = [size, rng.random(), rng.uniform(0, 3.1), rng.uniform(0, 6), rng.uniform(0, 6), rng.uniform(-3, 3)]
        if rng.random() < 0.3:
            e[0], e[1] = -size, 1 + logu(rng, 1e-2, 3)
            e[5] = rng.uniform(-1, 1) * math.acos(-1 / e[1]) * 0.9
    else:
        e = [size, rng.uniform(-0.6, 0.6), rng.uniform(-0.6, 0.6), rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(-3, 3)]
    if rng.random() < 0.05:
        mu = -mu
    name, ap = rng.choice(["body", "", "a b\tc", "B\u00e9zier"]), [logu(rng, 1, 1e12), logu(rng, 1, 1e8), logu(rng, 1, 1e8)]
    params = [("when", pk.epoch(t), REQ), ("posvel" if kind == 2 else "elem", seq(rng, e), REQ), ("mu_central_body", mu, REQ), ("name", name, "unknown"), ("added_params", seq(rng, ap), [-1.0, -1.0, -1.0])]
    if kind != 2:
        params.append(("el_type", EL[kind - 3], pk.el_type.KEP_F))
    make, v = call(rng, pk.udpla.keplerian, params)
    if kind != 2:
        kind = 3 + int(v[5])
    rec = [kind, t] + flat(e) + [mu] + flat(list(v[4]))
    inp = {"udpla": "keplerian", "kind": kind, "t": t, "e": e, "mu": mu, "name": v[3], "params": flat(list(v[4]))}
    w = ref("planet:getters", *rec, text=v[3])
    if isinstance(w, type):
        r = got(make)
        return (w, r), None, None, None, inp
    u = make()
    return pk.planet(u), rec, v[3], u, inp


def planets(m, rng, i):
    p, rec, text, u, inp = cpp_planet(rng)
    c = Case(m, "planet", inp)
    if rec is None:
        w, r = p
        return c.require("planet:refuses", isinstance(r, w), "expected %s, observed %r" % (w.__name__, r))
    t0 = inp.get("t", 0.0)
    ts = [rng.choice([t0, rng.uniform(-70000, 20000), t0 + rng.uniform(-1000, 1000), float(rng.randint(-5000, 5000)), 1e7 if rng.random() < 0.1 else 3.25]) for _ in range(rng.randint(0, 4))]
    fresh = lambda: p

    def observe(how, p):
        for t in ts[:2]:
            c.agree("planet:eph" + how, lambda: p.eph(t), ref("planet:eph", *rec, t, text=text), [[None] * 3, [None] * 3])
            if t == int(t):
                c.agree("planet:eph" + how, lambda: p.eph(int(t)), ref("planet:eph", *rec, t, text=text))
            c.agree("planet:eph-epoch" + how, lambda: p.eph(when=pk.epoch(t)), ref("planet:eph:epoch", *rec, 0, t, text=text))
            c.agree("planet:period" + how, lambda: p.period(t), ref("planet:period", *rec, t, text=text))
            c.agree("planet:period" + how, lambda: p.period(when=pk.epoch(t)), ref("planet:period", *rec, pk.epoch(t).mjd2000, text=text))
            for k, el in enumerate(EL[:4]):
                c.agree("planet:elements" + how, lambda: rng.choice([lambda: p.elements(t, el), lambda: p.elements(when=t, el_type=el), lambda: p.elements(el_type=el, when=t)])(), ref("planet:elements", *rec, t, k, text=text))
            c.agree("planet:elements-default" + how, lambda: p.elements(pk.epoch(t)), ref("planet:elements", *rec, pk.epoch(t).mjd2000, 1, text=text))
        c.agree("planet:defaults" + how, lambda: p.period(), ref("planet:period", *rec, 0, text=text))
        c.agree("planet:defaults" + how, lambda: p.elements(), ref("planet:elements", *rec, 0, 1, text=text))
        arg = rng.choice([ts, tuple(ts), np.array(ts, dtype=float)])
        c.agree("planet:eph_v" + how, lambda: p.eph_v(arg) if rng.random() < 0.5 else p.eph_v(when=arg), ref("planet:eph_v", *rec, len(ts), ts, text=text), (len(ts), 6))
        c.agree("planet:getters" + how, lambda: [p.get_mu_central_body(), p.get_mu_self(), p.get_radius(), p.get_safe_radius()], ref("planet:getters", *rec, text=text))
        for key, f, n in (("name", p.get_name, "name"), ("info", p.get_extra_info, "info"), ("repr", p.__repr__, "repr")):
            w = ref("planet:" + n, *rec, text=text)
            r = got(f)
            c.require("planet:" + key + how, r == w.text, "%r, the C++ library answers %r" % (r, w.text))

    observe("", p)
    for how, f in clones(rng, p):
        q = got(f)
        if c.require("planet:" + how, isinstance(q, pk.planet) and q is not p, repr(type(q))) and rng.random() < 0.5:
            observe(":" + how, q)
    # extraction
    kinds = [pk.udpla.keplerian, pk.udpla.jpl_lp, pk.udpla.null_udpla]
    for k in kinds:
        x = got(lambda: p.extract(k))
        mine = k is type(u)
        c.require("planet:extract", (type(x) is k) if mine else x is None, "%r of a %r" % (x, type(u)))
        c.require("planet:is_", got(lambda: p.is_(k)) is mine, "%r of a %r" % (k, type(u)))
    c.require("planet:extract", got(lambda: p.extract(object)) is None and got(lambda: p.is_(object)) is False, "object, of a planet coded in C++")
    c.require("planet:extract:refuses", isinstance(got(lambda: p.extract(u)), TypeError), "an instance")
    c.require("planet:refuses", isinstance(got(lambda: pk.planet(p)), TypeError) and isinstance(got(lambda: pk.planet(type(u))), TypeError), "planet of a planet or of a type")
    if rec[0] != 0:
        x = p.extract(type(u))
        want = ref("planet:udpla", *rec, text=text)
        del p
        gc.collect() if rng.random() < 0.02 else None
        junk = [pk.planet(pk.udpla.jpl_lp("venus")) for _ in range(3)]
        c.require("planet:extracted-outlives", repr(x) == want.text and repr(u) == want.text, "%r, the C++ library prints %r" % (repr(x), want.text))
        if rec[0] > 1:
            c.require("planet:ref_epoch", x.ref_epoch == pk.epoch(rec[1]) and u.ref_epoch.mjd2000 == pk.epoch(rec[1]).mjd2000, repr(x.ref_epoch))
    if rng.random() < 0.2 and rec[0] != 0:
        # planet_to_keplerian: the osculating orbit at an epoch
        q = pk.planet(u)
        t = pk.epoch(float(rng.randint(-3000, 3000)))
        w = ref("planet:eph:epoch", *rec, 0, t.mjd2000, text=text)
        g = ref("planet:getters", *rec, text=text)
        mu = rng.choice([None, g[0] * rng.uniform(0.9, 1.3)])
        if not isinstance(w, type):
            k = got(lambda: pk.planet_to_keplerian(q, t, mu) if rng.random() < 0.5 else pk.planet_to_keplerian(pla=q, when=t, mu=mu))
            r2 = [2, t.mjd2000] + w + [g[0] if mu is None else mu] + g[1:]
            nm = ref("planet:name", *rec, text=text).text + "(K)"
            w2 = ref("planet:eph", *r2, t.mjd2000 + 10, text=nm)
            if isinstance(w2, type):
                c.require("planet_to_keplerian:refuses", isinstance(k, w2), repr(k))
            elif c.require("planet_to_keplerian", isinstance(k, pk.planet) and k.is_(pk.udpla.keplerian), repr(k)):
                c.agree("planet_to_keplerian", lambda: k.eph(t.mjd2000 + 10), w2)
                c.agree("planet_to_keplerian", lambda: [k.get_mu_central_body(), k.get_mu_self(), k.get_radius(), k.get_safe_radius()], ref("planet:getters", *r2, text=nm))
                c.require("planet_to_keplerian", k.get_name() == nm, k.get_name())
    m.nontriv(rec, ts, text)


class Broken(Exception):
    pass


def user_planets(m, rng, i):
    """Planets whose udpla is a Python object."""
    optional = ["eph_v", "get_name", "get_extra_info", "get_mu_central_body", "get_mu_self", "get_radius", "get_safe_radius", "period", "elements"]
    has = {n for n in optional if rng.random() < 0.45}
    uncallable = {n for n in optional if n not in has and rng.random() < 0.08}
    fails = rng.choice([None] * 6 + ["eph"] + list(has))
    mu = logu(rng, 1e-2, 1e20)
    rv = state(rng, mu, logu(rng, 1e-1, 1e11))
    vals = {"get_mu_central_body": mu, "get_mu_self": logu(rng, 1, 1e15), "get_radius": logu(rng, 1, 1e8), "get_safe_radius": logu(rng, 1, 1e9), "get_name": rng.choice(["x", "", "na\u00efve", "two words"]), "get_extra_info": rng.choice(["info", "", "l1\nl2"]), "period": logu(rng, 1, 1e9)}
    how, whole = rng.randrange(4), rng.random() < 0.2
    calls = []

    def posvel(t):
        return [[rv[0][0] * (1 + 1e-4 * math.sin(t)), rv[0][1], rv[0][2] + rv[0][0] * 1e-5 * math.cos(t)], [rv[1][0], rv[1][1] * (1 + 1e-4 * math.cos(t)), rv[1][2]]]

    def eph(self, t):
        calls.append(("eph", t))
        if fails == "eph":
            raise Broken("eph", t)
        r = posvel(t)
        if whole:
            r = [[float(int(x)) for x in r[0]], [float(int(x)) for x in r[1]]]
            return [[int(x) for x in r[0]], [int(x) for x in r[1]]]
        return [r, (tuple(r[0]), r[1]), np.array(r), [np.array(r[0]), tuple(r[1])]][how]

    def expected(t):
        r = posvel(t)
        return [[float(int(x)) for x in v] for v in r] if whole else r

    def eph_v(self, ts):
        calls.append(("eph_v", list(ts)))
        if fails == "eph_v":
            raise Broken("eph_v")
        r = [x + 0.5 for t in ts for x in flat(posvel(t))]
        r += [1.0] * extra if extra > 0 else []
        r = r[: len(r) + extra] if extra < 0 else r
        return [r, tuple(r), np.array(r), np.array(r).reshape(-1, 6) if len(r) % 6 == 0 else np.array(r), [r[6 * k: 6 * k + 6] for k in range(len(r) // 6)] if len(r) % 6 == 0 else r][how_v]

    extra, how_v = rng.choice([0] * 8 + [1, 6, -1, -6]), rng.randrange(5)

    def elements_(self, t, el):
        calls.append(("elements", t, el))
        if fails == "elements":
            raise Broken("elements")
        return [t, float(int(el)), 3.0, 4.0, 5.0, 6.0] if rng.random() < 0.5 else np.array([t, float(int(el)), 3.0, 4.0, 5.0, 6.0])

    def period(self, t):
        calls.append(("period", t))
        if fails == "period":
            raise Broken("period")
        return vals["period"] + t

    def getter(n):
        def f(self):
            if fails == n:
                raise Broken(n)
            return vals[n]
        return f

    body = {"eph": eph}
    for n in has:
        body[n] = {"eph_v": eph_v, "elements": elements_, "period": period}.get(n) or getter(n)
    for n in uncallable:
        body[n] = 7
    Cls = type("my_udpla", (), body)
    if rng.random() < 0.2:  # methods of the instance, not of the class
        obj = Cls()
        obj.eph = lambda t: eph(obj, t)
    elif rng.random() < 0.3:
        obj = type("derived", (Cls,), {})()
    else:
        obj = Cls()
    inp = {"has": sorted(has), "uncallable": sorted(uncallable), "fails": fails, "rv": rv, "vals": vals, "extra": extra}
    c = Case(m, "user planet", inp)
    p = got(lambda: pk.planet(obj) if rng.random() < 0.5 else pk.planet(udpla=obj))
    if not c.require("user:constructed", isinstance(p, pk.planet), repr(type(p))):
        return
    c.require("user:extract", p.extract(type(obj)) is obj and p.extract(object) is obj and p.is_(type(obj)) and p.is_(object), "the object itself")
    c.require("user:extract", p.extract(pk.udpla.keplerian) is None and not p.is_(pk.udpla.jpl_lp) and p.extract(int) is None, "another type")
    q = copy.copy(p)
    c.require("user:copied", q is not p and q.extract(object) is obj, "a copy")
    if rng.random() < 0.3:
        p = q
    t = rng.choice([0.0, rng.uniform(-1000, 1000), float(rng.randint(-30, 30))])
    ts = [rng.uniform(-100, 100) for _ in range(rng.randint(0, 5))]
    te = pk.epoch(t)

    def decide(key, name, fn, want, shape=None, text=False, tol=0.0):
        """what the user's method answers, the exception it raises, or the default"""
        r = got(fn)
        if (name is not None and fails == name) or (isinstance(want, type) and want is Broken):
            return c.require("user:exception-passes", isinstance(r, Broken), "%s: %r" % (key, r))
        if isinstance(want, type):
            return c.require("user:" + key + ":refuses", isinstance(r, want), "expected %s, observed %r" % (want.__name__, r))
        if text:
            return c.require("user:" + key, r == want, "%r, expected %r" % (r, want))
        if isinstance(r, Exception):
            return c.require("user:" + key, False, "raised %s: %s" % (type(r).__name__, r))
        v = flat(r)
        ok = same(v, want) if not tol else len(v) == len(want) and all(abs(a - b) <= tol * abs(b) or bits(a) == bits(b) for a, b in zip(v, want))
        c.require("user:" + key, ok, "observed %r, expected %r" % (v[:12], want[:12]))
        if shape is not None and ok:
            c.require("user:" + key + ":shape", shape_of(r) == shape, repr(shape_of(r)))
        return ok

    b = Broken if fails == "eph" else None
    decide("eph", "eph", lambda: p.eph(t), flat(expected(t)), [[None] * 3, [None] * 3])
    decide("eph-epoch", "eph", lambda: p.eph(te), flat(expected(te.mjd2000)))
    if fails != "eph":
        c.require("user:called-with", [x for x in calls if x[0] == "eph"] == [("eph", t), ("eph", te.mjd2000)] and all(type(x[1]) is float for x in calls if x[0] == "eph"), repr(calls[:4]))
    if "eph_v" in has:
        short = extra != 0 and not (extra < 0 and not ts)
        if extra < 0 and not ts:
            short = False
        decide("eph_v", "eph_v", lambda: p.eph_v(ts), ValueError if short else [x + 0.5 for t_ in ts for x in flat(posvel(t_))], (len(ts), 6))
    else:
        decide("eph_v-default", "eph" if ts else None, lambda: p.eph_v(ts), [x for t_ in ts for x in flat(expected(t_))], (len(ts), 6))
    for n, d in (("get_mu_central_body", -1.0), ("get_mu_self", -1.0), ("get_radius", -1.0), ("get_safe_radius", -1.0)):
        decide("getter" if n in has else "getter-default", n, getattr(p, n), [vals[n] if n in has else d])
    decide("text" if "get_name" in has else "text-default", "get_name", p.get_name, vals["get_name"] if "get_name" in has else str(type(obj)), text=True)
    decide("text" if "get_extra_info" in has else "text-default", "get_extra_info", p.get_extra_info, vals["get_extra_info"] if "get_extra_info" in has else "", text=True)
    s = expected(t)
    bmu = Broken if fails in ("eph", "get_mu_central_body") else None
    if "period" in has:
        decide("period", "period", lambda: p.period(t), [vals["period"] + t])
        decide("period", "period", lambda: p.period(te), [vals["period"] + te.mjd2000])
        decide("period", "period", lambda: p.period(), [vals["period"]])
    elif "get_mu_central_body" in has:
        def default(t_):
            s = expected(t_)
            r, v2 = math.sqrt(sum(x * x for x in s[0])), sum(x * x for x in s[1])
            if r == 0:
                return None
            en = v2 / 2 - mu / r
            scale = v2 / 2 + mu / r
            if abs(en) < 1e-6 * scale:
                return None  # too close to a parabola for rounding not to matter
            a = -mu / 2 / en
            return [math.nan if en > 0 else 2 * math.pi * math.sqrt(a * a * a / mu)]
        for t_, f in ((t, lambda: p.period(t)), (te.mjd2000, lambda: p.period(te)), (0.0, lambda: p.period())):
            w = default(t_)
            if w is not None:
                decide("period-default", None, f, bmu or w, tol=1e-8)
    else:
        decide("period-missing", None, lambda: p.period(t), NotImplementedError)
    for k, el in enumerate(EL[:4]):
        if "elements" in has:
            decide("elements", "elements", lambda: p.elements(t, el), [t, float(k), 3.0, 4.0, 5.0, 6.0])
        elif "get_mu_central_body" in has:
            if any(s[0]) and any(s[1]):
                w = ref("elements:posvel", s, mu, k)
                decide("elements-default", None, lambda: p.elements(t, el), bmu or w)
        else:
            decide("elements-missing", None, lambda: p.elements(t, el), NotImplementedError)
    if "elements" in has:
        decide("elements", "elements", lambda: p.elements(when=te), [te.mjd2000, 1.0, 3.0, 4.0, 5.0, 6.0])
    if fails not in ("get_name", "get_extra_info", "get_mu_central_body", "get_mu_self", "get_radius", "get_safe_radius", "eph", "period", "elements"):
        r = got(lambda: repr(p))
        c.require("user:repr", isinstance(r, str) and (vals["get_name"] if "get_name" in has else str(type(obj))) in r and (vals["get_extra_info"] if "get_extra_info" in has else "") in r, repr(r))
    # what is no planet
    bad, exc = rng.choice([(object(), NotImplementedError), (3, NotImplementedError), (type(obj), TypeError), (type("no_eph", (), {"ephs": eph})(), NotImplementedError), (type("eph_is_data", (), {"eph": [1]})(), NotImplementedError), (p, TypeError)])
    c.require("user:refuses", isinstance(got(lambda: pk.planet(bad)), exc), repr(type(bad)))
    if rng.random() < 0.3:
        w = rng.choice([[[1.0, 2.0], [3.0, 4.0, 5.0]], [1.0] * 6, "position", None, 3.0, [[1.0, 2.0, "x"], [1.0, 2.0, 3.0]]])
        r = got(lambda: pk.planet(type("wrong", (), {"eph": lambda self, t: w})()).eph(0.0))
        c.require("user:wrong-answer", isinstance(r, (RuntimeError, TypeError, ValueError)), "eph returning %r: %r" % (w, r))
    # the planet keeps its udpla alive
    del obj
    if fails != "eph" and "eph" not in getattr(p.extract(object), "__dict__", {}):
        decide("outlives", "eph", lambda: p.eph(t), flat(expected(t)))
    m.nontriv(sorted(has), fails, rv, t)


def lambert(m, rng, i):
    mu, size = logu(rng, 1e-2, 1e20), logu(rng, 1e-1, 1e11)
    T = 2 * math.pi * math.sqrt(size ** 3 / mu)
    r0, r1 = ([x * size * rng.uniform(0.5, 2) for x in unit(rng)] for _ in range(2))
    if rng.random() < 0.03:
        r1 = [2 * x for x in r0]
    unitless = rng.random() < 0.3
    if unitless:
        r0, r1, mu, T = unit(rng), unit(rng), 1.0, 6.28
    params = [("r0", r0, [1.0, 0.0, 0.0]), ("r1", r1, [0.0, 1.0, 0.0]), ("tof", odd(rng, T * logu(rng, 0.05, 10)), math.pi / 2), ("mu", odd(rng, mu), 1.0), ("cw", rng.random() < 0.5, False), ("multi_revs", rng.choice([0, 1, 2, 5, 20]), 1)]
    params = [(n, seq(rng, v) if isinstance(v, list) else v, d) for n, v, d in params]
    make, v = call(rng, pk.lambert_problem, params)
    c = Case(m, "lambert", dict(zip(["r0", "r1", "tof", "mu", "cw", "multi_revs"], map(lambda x: flat(x) if not isinstance(x, (float, int, bool)) else x, v))))
    w = ref("lambert", *v)
    if isinstance(w, type):
        c.require("lambert:refuses", isinstance(got(make), w), "%r" % (got(make),))
        return
    l = got(make)
    if not c.require("lambert", isinstance(l, pk.lambert_problem), repr(l)):
        return
    n = int(w[1])
    look = lambda l: [l.Nmax, len(l.v0), l.v0, l.v1, l.x, l.iters]
    c.agree("lambert", lambda: look(l), w)
    c.agree("lambert:inputs", lambda: [l.r0, l.r1, l.tof, l.mu], [float(x) for x in flat(v[:4])])
    c.require("lambert:shape", shape_of(l.v0) == [[None] * 3] * n == shape_of(l.v1) and len(l.x) == n == 2 * l.Nmax + 1 and all(type(k) is int for k in l.iters + [l.Nmax]), repr(shape_of(l.v0)))
    c.require("lambert:repr", repr(l) == w.text, "%r, the C++ library prints %r" % (repr(l), w.text))
    for how, f in clones(rng, l):
        q = got(f)
        c.agree("lambert:" + how, lambda: look(q), w)
        c.require("lambert:" + how, got(lambda: repr(q)) == w.text, repr(q))
    l.v0[0][0] = 1e99
    c.agree("lambert:own-lists", lambda: look(l), w)
    if rng.random() < 0.1:
        bad = rng.choice([{"r0": [1, 2]}, {"tof": "x"}, {"cw": "yes"}, {"multi_revs": -1}, {"multi_revs": 1.5}, {"r2": [1, 2, 3]}, {"r1": None}])
        c.require("wrong-type:refuses", isinstance(got(lambda: pk.lambert_problem(**bad)), TypeError), repr(bad))
    m.nontriv(flat(v))


def lagrangian(m, rng, i):
    mu, size = logu(rng, 1e-2, 1e20), logu(rng, 1e-1, 1e11)
    rv = state(rng, mu, size)
    T = 2 * math.pi * math.sqrt(size ** 3 / mu)
    ts = [T * rng.uniform(-3, 3) for _ in range(rng.randint(0, 5))]
    t = ts[0] if ts else T
    stm = rng.random() < 0.5
    rvd = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]]
    make, v = call(rng, pk.propagate_lagrangian, [("rv", seq(rng, rv), rvd), ("tof", t, math.pi / 2), ("mu", odd(rng, mu), 1.0), ("stm", stm, False)])
    c = Case(m, "propagate_lagrangian", {"rv": flat(v[0]), "tof": v[1], "mu": v[2], "stm": v[3]})
    w = ref("lagrangian", v[0], v[2], v[3], 1, v[1])
    r = c.agree("lagrangian", make, w)
    if not isinstance(w, type) and r is not None:
        want = ([[None] * 3, [None] * 3], (6, 6)) if v[3] else ([None] * 3, [None] * 3)
        c.require("lagrangian:shape", shape_of(r) == want, repr(shape_of(r)))
    make, v = call(rng, pk.propagate_lagrangian_v, [("rv", seq(rng, rv), rvd), ("tofs", rng.choice([ts, tuple(ts), np.array(ts, dtype=float)]), [math.pi / 2]), ("mu", odd(rng, mu), 1.0), ("stm", stm, False)])
    c = Case(m, "propagate_lagrangian_v", {"rv": flat(v[0]), "tofs": flat(v[1]), "mu": v[2], "stm": v[3]})
    w = ref("lagrangian:v", v[0], v[2], v[3], len(v[1]), v[1])
    r = c.agree("lagrangian_v", make, w)
    if not isinstance(w, type) and r is not None:
        one = ([[None] * 3, [None] * 3], [None] * 36 if v[3] else None)
        c.require("lagrangian_v:shape", shape_of(r) == [one] * len(v[1]) and (v[3] or all(x[1] is None for x in r)), repr(shape_of(r))[:300])
    m.nontriv(rv, ts, mu, stm)


def stark(m, rng, i):
    rv = state(rng)
    x = flat(rv) + [rng.choice([logu(rng, 0.1, 10)] * 12 + [0.0])]
    u = [rng.uniform(-1e-2, 1e-2) for _ in range(3)]
    t = rng.uniform(-2, 4)
    mk, v = call(rng, pk.stark_problem, [("mu", logu(rng, 0.5, 2), 1.0), ("veff", logu(rng, 0.1, 10), 1.0), ("tol", 10 ** rng.uniform(-16, -9) if rng.random() < 0.1 else 1e-16, 1e-16)])
    c = Case(m, "stark", {"mu": v[0], "veff": v[1], "tol": v[2], "state": x, "thrust": u, "tof": t})
    p = mk()
    c.agree("stark:settings", lambda: [p.mu, p.veff, p.tol], [float(q) for q in v])
    c.require("stark:repr", repr(p) == ref("stark:repr", *v).text, repr(p))
    w, wv = ref("stark:propagate", *v, x, u, t), ref("stark:var", *v, x, u, t)
    others = [("", p)] + ([(":" + how, got(f)) for how, f in clones(rng, p)] if rng.random() < 0.3 else [])
    for how, q in others:
        a, b = ("rvm_state", seq(rng, x), REQ), ("thrust", seq(rng, u), REQ)
        f, _ = call(rng, lambda *y, **z: q.propagate(*y, **z), [a, b, ("tof", t, REQ)])
        c.agree("stark:propagate" + how, f, w, [None] * 7)
        f, _ = call(rng, lambda *y, **z: q.propagate_var(*y, **z), [a, b, ("tof", t, REQ)])
        r = c.agree("stark:propagate_var" + how, f, wv)
        if not isinstance(wv, type) and r is not None:
            c.require("stark:propagate_var:shape", shape_of(r) == ([None] * 7, (7, 7), (7, 3)), repr(shape_of(r)))
    m.nontriv(x, u, t, v)


def flyby(m, rng, i):
    mu, rp = logu(rng, 1e-2, 1e17), logu(rng, 1e-2, 1e8)
    s = math.sqrt(mu / rp)
    a = [x * s * logu(rng, 0.1, 5) for x in unit(rng)]
    b = [x * s * logu(rng, 0.1, 5) for x in unit(rng)]
    if rng.random() < 0.5:
        na, nb = math.sqrt(sum(x * x for x in a)), math.sqrt(sum(x * x for x in b))
        b = [x * na / nb for x in b]
    beta = rng.uniform(-4, 4)
    c = Case(m, "flyby", {"a": a, "b": b, "mu": mu, "rp": rp, "beta": beta})
    for n in ("con", "dv"):
        fn = getattr(pk, "fb_" + n)
        f, _ = call(rng, fn, [("v_rel_in", seq(rng, a), REQ), ("v_rel_out", seq(rng, b), REQ), ("mu", mu, REQ), ("safe_radius", rp, REQ)])
        c.agree("fb_" + n, f, ref("flyby:" + n, a, b, mu, rp))
        e = [1.0, 0.1, 0.1, 0.1, 0.1, 0.1]
        ms, r, sr = rng.choice([(mu, rp, rp * 1.1), (mu, rp, rp * 1.1), (-1.0, rp, rp), (mu, -1.0, -1.0)])
        pl = pk.planet(pk.udpla.keplerian(pk.epoch(0), e, 1.0, "p", [ms, r, sr]))
        f, _ = call(rng, fn, [("v_rel_in", seq(rng, a), REQ), ("v_rel_out", seq(rng, b), REQ), ("planet", pl, REQ)])
        c.agree("fb_%s:planet" % n, f, ref("planet:fb_" + n, 4, 0, e, 1.0, [ms, r, sr], a, b, text="p"))
    c.require("flyby:shape", type(pk.fb_con(a, b, mu, rp)) is tuple and len(pk.fb_con(a, b, mu, rp)) == 2 and type(pk.fb_dv(a, b, mu, rp)) is float)
    f, _ = call(rng, pk.fb_vout, [("v_in", seq(rng, a), REQ), ("v_pla", seq(rng, b), REQ), ("rp", rp, REQ), ("beta", beta, REQ), ("mu", mu, REQ)])
    c.agree("fb_vout", f, ref("flyby:vout", a, b, rp, beta, mu), [None] * 3)
    m.nontriv(a, b, mu, rp)


FIELDS = ["rvs", "ms", "throttles", "rvf", "mf", "tof", "max_thrust", "isp", "mu", "cut"]
DEFAULTS = [[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]], 1.0, [0.0] * 6, [[0.0, 1.0, 0.0], [-1.0, 0.0, 0.0]], 1.0, math.pi / 2, 1.0, 1.0, 1.0, 0.5]


def field(rng, n):
    return {"rvs": lambda: state(rng), "rvf": lambda: state(rng), "ms": lambda: logu(rng, 0.5, 5), "mf": lambda: logu(rng, 0.5, 5), "tof": lambda: odd(rng, rng.uniform(0.05, 3)), "isp": lambda: odd(rng, logu(rng, 0.1, 10)),
            "max_thrust": lambda: odd(rng, logu(rng, 1e-3, 0.1)), "mu": lambda: odd(rng, logu(rng, 0.5, 2)), "cut": lambda: rng.choice([0.0, 1.0, 0.5, rng.random(), rng.choice([-0.1, 1.1, math.nan]) if rng.random() < 0.2 else 0.3]),
            "throttles": lambda: [rng.uniform(-0.6, 0.6) for _ in range(3 * rng.choice([1, 2, 3, 5, 8]) + (rng.randint(1, 2) if rng.random() < 0.04 else 0))], "tol": lambda: 10 ** rng.choice([-16, -16, -14, -12, -10])}[n]()


def legs(kind):
    cls = pk.leg.sims_flanagan if kind == "sf" else pk.leg.sims_flanagan_hf

    def run(m, rng, i):
        make, v = call(rng, cls, [(n, seq(rng, x) if isinstance(x, list) else x, d) for (n, x, d) in ((n, field(rng, n), d) for n, d in zip(FIELDS, DEFAULTS))])
        v = dict(zip(FIELDS, v))
        v = {n: (x if isinstance(x, float) else ([flat(x)[:3], flat(x)[3:]] if n in ("rvs", "rvf") else flat(x))) for n, x in v.items()}
        tol = 1e-16
        c = Case(m, kind, {"history": [dict(v)]})

        def rec(v, tol):
            return [v["rvs"], v["ms"], len(v["throttles"]), v["throttles"], v["rvf"], v["mf"], v["tof"], v["max_thrust"], v["isp"], v["mu"], v["cut"]] + ([tol] if kind == "hf" else [])
        w = ref(kind + ":counts", *rec(v, tol))
        l = got(make)
        if isinstance(w, type):
            return c.require(kind + ":refuses", isinstance(l, w), "expected %s, observed %r" % (w.__name__, l))
        if not c.require(kind + ":constructed", isinstance(l, cls), repr(l)):
            return

        def observe(how, l, v, tol, deep):
            r = rec(v, tol)
            for n in FIELDS:
                c.agree(kind + ":" + n + how, lambda: getattr(l, n), [float(x) for x in flat([v[n]])])
            w = ref(kind + ":counts", *r)
            n = int(w[0])
            c.agree(kind + ":nseg" + how, lambda: [l.nseg, l.nseg_fwd, l.nseg_bck], w)
            x = got(lambda: repr(l))
            c.require(kind + ":repr" + how, x == ref(kind + ":repr", *r).text, "%r" % (x,))
            c.agree(kind + ":mismatch" + how, l.compute_mismatch_constraints, ref(kind + ":mc", *r), [None] * 7)
            c.agree(kind + ":throttle-constraints" + how, l.compute_throttle_constraints, ref(kind + ":tc", *r), [None] * n)
            if not deep:
                return
            g = c.agree(kind + ":tc_grad" + how, l.compute_tc_grad, ref(kind + ":tcg", *r), (n, 3 * n))
            wg = ref(kind + ":mcg", *r)
            h = c.agree(kind + ":mc_grad" + how, l.compute_mc_grad, wg)
            if not isinstance(wg, type) and h is not None:
                c.require(kind + ":mc_grad:shape", shape_of(h) == ((7, 7), (7, 7), (7, 3 * n + 1)), repr(shape_of(h)))
                keep = [x.copy() for x in h]
                h2 = l.compute_mc_grad()
                for x in h2:
                    x[:] = 7.0  # the caller's own
                c.agree(kind + ":own-arrays", lambda: list(h), flat(keep))
                c.agree(kind + ":own-arrays", l.compute_mc_grad, wg)
            if kind == "hf":
                c.agree("hf:rvm", lambda: [l.rvms, l.rvmf, l.tol], flat([v["rvs"], v["ms"], v["rvf"], v["mf"], tol]))
                if n <= 5:
                    k = rng.randint(2, 4)
                    wh = ref("hf:history", *r, k)
                    c.agree("hf:history", lambda: [y for x in l.get_state_history(k) for y in [float(len(x))] + list(x)], wh)
            return h

        held = observe("", l, v, tol, True)
        w_held = ref(kind + ":mcg", *rec(v, tol))
        for _ in range(rng.randint(0, 3)):
            n = rng.choice(FIELDS + (["tol", "rvms", "rvmf"] if kind == "hf" else []))
            nv, ntol = dict(v), tol
            if n in ("rvms", "rvmf"):
                s = state(rng)
                mass = logu(rng, 0.5, 5)
                x = flat(s) + [mass]
                nv["rv" + n[-1]], nv["m" + n[-1]] = s, mass
            elif n == "tol":
                x = ntol = field(rng, n)
            else:
                x = nv[n] = field(rng, n)
            w = ref(kind + ":counts", *rec(nv, ntol))
            c.inp["history"].append({n: x})
            arg = seq(rng, x) if isinstance(x, list) else x
            r = got(lambda: setattr(l, n, arg))
            if isinstance(w, type):
                c.require(kind + ":set:refuses", isinstance(r, w), "%s = %r: %r" % (n, x, r))
            elif c.require(kind + ":set", r is None, "%s = %r: %r" % (n, x, r)):
                v, tol = nv, ntol
            observe(":after-set", l, v, tol, rng.random() < 0.5)
        q = got(lambda: setattr(l, rng.choice(["nseg", "nseg_fwd", "nseg_bck"]), 3))
        c.require(kind + ":read-only", isinstance(q, AttributeError), repr(q))
        th = l.throttles
        th.append(3.0)
        c.agree(kind + ":own-lists", lambda: l.throttles, v["throttles"])
        for how, f in clones(rng, l):
            q = got(f)
            if c.require(kind + ":" + how, type(q) is cls and q is not l, repr(q)):
                observe(":" + how, q, v, tol, rng.random() < 0.3)
                q.ms = 77.0
                c.agree(kind + ":independent-copies", lambda: l.ms, [v["ms"]])
        del l
        if rng.random() < 0.02:
            gc.collect()
        if held is not None and not isinstance(w_held, type):
            c.agree(kind + ":arrays-outlive-legs", lambda: list(held), w_held)
        if rng.random() < 0.1:
            bad = rng.choice([{"rvs": [1.0] * 6}, {"ms": None}, {"throttles": 1.0}, {"rvf": [[1, 2], [3, 4]]}, {"thrust": 1.0}, {"cut": "half"}])
            c.require("wrong-type:refuses", isinstance(got(lambda: cls(**bad)), TypeError), repr(bad))
        m.nontriv(c.inp["history"])
    return run


KINDS = [constants, anomalies, elements, epochs, planets, user_planets, lambert, lagrangian, flyby, legs("sf")]
SLOW = [stark, legs("hf")]


def case(m, rng, i):
    only = m.extra.get("only")
    if i % 60 == 0:
        k = constants
    elif i % 30 == 1 or i % 30 == 16:
        k = SLOW[(i // 15) % 2]
    else:
        k = KINDS[1:][i % (len(KINDS) - 1)]
    if only:
        k = {"constants": constants, "anomalies": anomalies, "elements": elements, "epochs": epochs, "planets": planets, "user": user_planets, "lambert": lambert, "lagrangian": lagrangian, "flyby": flyby, "sf": KINDS[-1], "hf": SLOW[1], "stark": stark}[only]
    with contextlib.redirect_stdout(io.StringIO()):
        k(m, rng, i)


pymon.drive(2727, case)
