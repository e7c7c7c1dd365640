"""A stand-in for sgp4: element sets are parsed as published; the motion is Keplerian with the secular effects of the oblateness and of the drag."""
import math
import numpy as np

MU, RE, J2 = 398600.8, 6378.135, 0.001082616
SGP4_ERRORS = {1: "mean eccentricity is outside the range 0.0 to 1.0", 6: "mrt is less than 1.0 which indicates the satellite has decayed"}


def _days(y, m, d):
    return 367 * y - 7 * (y + (m + 9) // 12) // 4 + 275 * m // 9 + d + 1721013.5


class Satrec:
    __slots__ = ("satnum_str", "jdsatepoch", "jdsatepochF", "inclo", "nodeo", "ecco", "argpo", "mo", "no_kozai", "bstar", "error", "_lines", "calls")

    @classmethod
    def twoline2rv(cls, line1, line2, whichconst=2):
        s = cls()
        line1, line2 = line1.rstrip(), line2.rstrip()
        if len(line1) < 64 or line1[0] != "1" or len(line2) < 63 or line2[0] != "2" or line1[2:7] != line2[2:7]:
            raise ValueError("TLE format error")
        s._lines = (line1, line2)
        s.satnum_str = line1[2:7]
        yy = int(line1[18:20])
        year = yy + (2000 if yy < 57 else 1900)
        day = line1[20:32]
        whole, frac = day.split(".")
        s.jdsatepoch = _days(year, 1, 0) + int(whole)
        s.jdsatepochF = float("0." + frac)
        s.inclo, s.nodeo = math.radians(float(line2[8:16])), math.radians(float(line2[17:25]))
        s.ecco, s.argpo = float("0." + line2[26:33].replace(" ", "0")), math.radians(float(line2[34:42]))
        s.mo, s.no_kozai = math.radians(float(line2[43:51])), float(line2[52:63]) * 2 * math.pi / 1440
        s.bstar = float(line1[53] + "0." + line1[54:59].strip() + "e" + line1[59:61])
        s.error, s.calls = 0, []
        return s

    def sgp4(self, jd, fr):
        self.calls.append((float(jd), float(fr)))
        t = ((float(jd) - self.jdsatepoch) + (float(fr) - self.jdsatepochF)) * 1440
        n = self.no_kozai
        a = (MU * 3600 / n ** 2) ** (1 / 3)
        e = self.ecco + self.bstar * 1e-6 * t
        if not 0 <= e < 1 or a * (1 - e) < RE * 0.98:
            self.error = 1 if not 0 <= e < 1 else 6
            return self.error, (math.nan,) * 3, (math.nan,) * 3
        self.error = 0
        k = 1.5 * n * J2 * (RE / (a * (1 - e * e))) ** 2
        ci, si = math.cos(self.inclo), math.sin(self.inclo)
        O, w, M = self.nodeo - k * ci * t, self.argpo + k * (2 - 2.5 * si * si) * t, self.mo + n * t
        M = math.remainder(M, 2 * math.pi)
        E = M
        for _ in range(60):
            d = (E - e * math.sin(E) - M) / (1 - e * math.cos(E))
            E -= max(-1.0, min(1.0, d))
            if abs(d) < 1e-15:
                break
        b = math.sqrt(1 - e * e)
        x, y = a * (math.cos(E) - e), a * b * math.sin(E)
        f = math.sqrt(MU / a ** 3) * a / (1 - e * math.cos(E))
        vx, vy = -f * math.sin(E), f * b * math.cos(E)
        cO, sO, cw, sw = math.cos(O), math.sin(O), math.cos(w), math.sin(w)
        P = (cO * cw - sO * sw * ci, sO * cw + cO * sw * ci, sw * si)
        Q = (-cO * sw - sO * cw * ci, -sO * sw + cO * cw * ci, cw * si)
        return 0, tuple(x * p + y * q for p, q in zip(P, Q)), tuple(vx * p + vy * q for p, q in zip(P, Q))

    def sgp4_array(self, jd, fr):
        if not isinstance(jd, np.ndarray) or not isinstance(fr, np.ndarray):
            raise TypeError("arrays required")
        if jd.shape != fr.shape or jd.ndim != 1:
            raise ValueError("jd and fr must have the same length")
        res = [self.sgp4(a, b) for a, b in zip(jd, fr)]
        n = len(res)
        return np.array([x[0] for x in res], dtype=np.uint8), np.array([x[1] for x in res], dtype=float).reshape(n, 3), np.array([x[2] for x in res], dtype=float).reshape(n, 3)
