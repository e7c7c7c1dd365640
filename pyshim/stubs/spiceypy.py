"""A stand-in for spiceypy: kernels are declared, states are those of bodies on moving ellipses; names, frames, coverage, loading and errors as in the SPICE toolkit."""
import math
import numpy as np


class SpiceyError(Exception):
    pass


class NotFoundError(SpiceyError):
    pass


class Cell(list):
    """What spkobj gives: something to iterate over that is not a plain list."""


_files = {}   # path -> (bodies, first second, last second)
_pool = []    # loaded, oldest first
calls = []    # what was asked of spkezr and pxform
_style = [0]  # how vectorised calls answer (a list of arrays or one array), as versions of spiceypy differ

_NAMES = {"SOLAR SYSTEM BARYCENTER": 0, "SSB": 0, "SUN": 10, "MERCURY BARYCENTER": 1, "VENUS BARYCENTER": 2, "EARTH BARYCENTER": 3, "EMB": 3, "EARTH MOON BARYCENTER": 3,
          "MARS BARYCENTER": 4, "JUPITER BARYCENTER": 5, "SATURN BARYCENTER": 6, "URANUS BARYCENTER": 7, "NEPTUNE BARYCENTER": 8, "PLUTO BARYCENTER": 9, "MERCURY": 199,
          "VENUS": 299, "EARTH": 399, "MOON": 301, "MARS": 499, "PHOBOS": 401, "JUPITER": 599, "IO": 501, "TITAN": 606, "CASSINI": -82, "JUICE": -28, "CERES": 2000001}
_FRAMES = {"J2000": 1, "B1950": 2, "FK4": 3, "GALACTIC": 13, "ECLIPJ2000": 17, "ECLIPB1950": 18}


def declare(path, bodies, first=-1e11, last=1e11):
    _files[path] = (tuple(bodies), first, last)


def loaded():
    return list(_pool)


def kclear():
    del _pool[:]


def _paths(p):
    return list(p) if isinstance(p, (list, tuple)) else [p]


def furnsh(path):
    for p in _paths(path):
        if p not in _files:
            raise SpiceyError("SPICE(NOSUCHFILE): " + str(p))
        _pool.append(p)


def unload(path):
    """Undoes the last loading of the file, if there is one."""
    for p in _paths(path):
        for k in range(len(_pool) - 1, -1, -1):
            if _pool[k] == p:
                del _pool[k]
                break


def tkvrsn(item):
    if item != "TOOLKIT":
        return ""
    return "CSPICE_N0067"


def bodn2c(name):
    try:
        return _NAMES[" ".join(name.upper().split())]
    except KeyError:
        raise NotFoundError("no body " + name)


def irfnum(name):
    return _FRAMES.get(name.upper(), 0)


def spkobj(path):
    if path not in _files:
        raise SpiceyError("SPICE(NOSUCHFILE): " + str(path))
    return Cell(sorted(_files[path][0]))


def _frame(name):
    n = irfnum(name)
    if not n:
        raise SpiceyError("SPICE(UNKNOWNFRAME): " + name)
    e = math.radians(84381.448 / 3600)
    if n == 17:
        return np.array([[1, 0, 0], [0, math.cos(e), math.sin(e)], [0, -math.sin(e), math.cos(e)]])
    if n == 1:
        return np.eye(3)
    a, b = 0.7 * n, 0.3 * n
    return np.array([[math.cos(a), math.sin(a), 0], [-math.sin(a), math.cos(a), 0], [0, 0, 1]]) @ np.array([[1, 0, 0], [0, math.cos(b), math.sin(b)], [0, -math.sin(b), math.cos(b)]])


def _barycentric(code, et):
    """Position (km) and velocity (km/s) in J2000 with respect to the barycentre."""
    if code == 0:
        return np.zeros(3), np.zeros(3)
    k = abs(code) % 97 + 1
    a = np.array([1.1, 0.9, 0.3]) * 2e7 * k
    w = np.array([1.0, 1.0, 0.37]) * 2e-7 / k
    ph = np.array([0.1, 0.1 - math.pi / 2, 2.0]) + k
    d = np.array([3e6, -1e6, 2e6])
    return a * np.cos(w * et + ph) + d, -a * w * np.sin(w * et + ph)


def _state(targ, et, ref, abcorr, obs):
    calls.append(("spkezr", targ, float(et), ref, abcorr, obs))
    t, o = bodn2c(targ), bodn2c(obs)
    for b in (t, o):
        if b != 0 and not any(b in _files[p][0] and _files[p][1] <= et <= _files[p][2] for p in _pool):
            raise SpiceyError("SPICE(SPKINSUFFDATA): body %d at %r" % (b, et))
    return _answer(targ, et, ref, abcorr, obs)


def _answer(targ, et, ref, abcorr, obs):
    t, o = bodn2c(targ), bodn2c(obs)
    if abcorr != "NONE":
        et = et - 500.0
    R = _frame(ref)
    (rt, vt), (ro, vo) = _barycentric(t, et), _barycentric(o, et)
    r = rt - ro
    return np.concatenate((R @ r, R @ (vt - vo))), float(np.linalg.norm(r) / 299792.458)


def spkezr(targ, et, ref, abcorr, obs):
    if hasattr(et, "__iter__"):
        r = [_state(targ, t, ref, abcorr, obs) for t in et]
        s, lt = [x[0] for x in r], [x[1] for x in r]
        _style[0] += 1
        return (s, lt) if _style[0] % 2 else (np.array(s), np.array(lt))
    if not isinstance(et, (float, int)):
        raise TypeError("et must be a number")
    return _state(targ, et, ref, abcorr, obs)


def pxform(fromstr, tostr, et):
    calls.append(("pxform", fromstr, tostr, float(et)))

    def frame(name):
        if name.upper().startswith("IAU_"):  # turns with its body
            a = 7.3e-5 * (1 + len(name)) * float(et)
            return np.array([[math.cos(a), math.sin(a), 0], [-math.sin(a), math.cos(a), 0], [0, 0, 1]])
        return _frame(name)
    return frame(tostr) @ frame(fromstr).T
