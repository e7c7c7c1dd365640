// First-order rounding-error models: what double precision can be asked to deliver for a formulation.
#pragma once
#include "gen.hpp"
namespace vf
{
using ref::EPS;
struct RVB {
    double r, v;
};
// acos of a quantity known to eps: error of the angle
inline double acos_err(double theta, double eps)
{
    const double s = std::abs(std::sin(theta));
    return std::min(s > 0 ? 2 * eps / s : 1e300, 3 * std::sqrt(eps));
}

struct Prop {
    ref::RV x, xf;
    ref::PropInfo info;
    ref::Cond c;
    double mu, tof, R0, V0, Rf, Vf, A, s0, ch, sh, D;
    bool ell;
    Prop(const rv_t &rv, double tof_, double mu_, ref::M6 *keep = nullptr) : mu(mu_), tof(tof_)
    {
        x = ref::toQ(rv);
        xf = ref::kepler(x, tof, mu, &info);
        c = ref::cond(x, tof, mu, xf, keep);
        R0 = ref::d(ref::norm(x.r));
        V0 = ref::d(ref::norm(x.v));
        Rf = ref::d(ref::norm(xf.r));
        Vf = ref::d(ref::norm(xf.v));
        A = std::abs(1 / ref::d(info.alpha));
        ell = info.alpha > 0;
        s0 = std::abs(ref::d(ref::dot(x.r, x.v))) / std::sqrt(mu); // sigma0
        D = std::abs(ref::d(info.chi)) / std::sqrt(A);
        ch = ell ? 1 : std::cosh(D);
        sh = ell ? 1 : std::sinh(D);
    }
    // Rounding bound (units of EPS) of a Lagrange coefficient formulation in the anomaly difference.
    RVB lagrange() const
    {
        const double T = A * std::sqrt(A / mu); // time unit
        const double sA = std::sqrt(A);
        const double dRf = A + (R0 + A) * ch + s0 * sA * sh;
        const double dF = 1 + A / R0 * (1 + ch);
        const double dG = A * s0 / std::sqrt(mu) * (1 + ch) + R0 * std::sqrt(A / mu) * sh;
        const double F = std::abs(ref::d(info.F)), G = std::abs(ref::d(info.G)), Ft = std::abs(ref::d(info.Ft)), Gt = std::abs(ref::d(info.Gt) - 1);
        const double dFt = Ft * (1 + dRf / Rf) + std::sqrt(mu * A) / (Rf * R0) * sh;
        const double dGt = 1 + A / Rf * (1 + ch) + Gt * dRf / Rf;
        const double dt = ((ell ? 2 * M_PI : D) + s0 / sA * (1 + ch) + std::abs(1 + R0 / A) * sh) * T + std::abs(tof);
        RVB b;
        b.r = ref::d(c.r) + R0 * (F + dF) + V0 * (G + dG) + Vf * dt;
        b.v = ref::d(c.v) + R0 * dFt + V0 * (1 + dGt) + mu / (Rf * Rf) * dt;
        b.r *= EPS;
        b.v *= EPS;
        return b;
    }
    RVB universal() const
    {
        RVB b = lagrange();
        const double T = A * std::sqrt(A / mu);
        const double Dtot = ell ? std::abs(tof) / T + 2 * M_PI : D;
        // G = t - chi^3 S / sqrt(mu): cancellation on the total anomaly
        const double g = EPS * (std::abs(tof) + Dtot * T + (ell ? 0 : sh * T)) * V0;
        // trigonometric arguments are the total anomaly
        const double q = EPS * Dtot;
        b.r += g + q * (R0 * A / R0 + V0 * (A * s0 / std::sqrt(mu) + T) + Vf * T);
        b.v += q * (mu / (Rf * Rf) * T + V0 * A / Rf + std::sqrt(mu * A) / Rf);
        const double Ft = std::abs(ref::d(info.Ft)), Gt = std::abs(ref::d(info.Gt) - 1);
        b.v += (Ft * R0 + Gt * V0) * b.r / Rf;
        return b;
    }
    // Through osculating elements obtained with inverse cosines.
    RVB elements(double e, double inc, double w, double f0, double mode_eps = EPS) const
    {
        RVB b = lagrange();
        const double h = ref::d(ref::norm(ref::cross(x.r, x.v)));
        const double ke = (1 + V0 * h / mu + 2 * R0 * V0 / h * (1 + V0 * V0 * R0 / mu)) / e;
        const double kn = R0 * V0 / (h * std::sin(inc));
        const double ei = acos_err(inc, mode_eps * (2 + R0 * V0 / h));
        const double ef = acos_err(f0, mode_eps * (2 + ke));
        const double ew = acos_err(w, mode_eps * (2 + ke / std::sin(inc) + kn));
        const double eW = 3 * std::sqrt(mode_eps * (2 + kn)); // any node
        const double de = mode_eps * ke * e;
        const double da = A * (2 * e * de / std::abs(1 - e * e) + mode_eps * (2 + 4 * R0 * V0 / h));
        const double T = A * std::sqrt(A / mu);
        // true anomaly error -> time; a error -> mean motion and size; e error -> shape
        const double dt = ef * R0 * R0 / h + 1.5 * da / A * std::abs(tof);
        const double p = A * std::abs(1 - e * e);
        // effect of an eccentricity error on the state at given anomaly: over |1-e^2| and through Kepler's equation
        const double amp = (1 + ch) / std::abs(1 - e);
        const double rot = ei + ew + eW;
        b.r += Vf * dt + Rf * rot + (Rf + A * ch) * (de * amp + da / A);
        b.v += mu / (Rf * Rf) * dt + Vf * rot + (Vf + std::sqrt(mu / p)) * (de * amp * (1 + A * ch / Rf) + da / A);
        b.r += Vf * T * de * amp;
        b.v += mu / (Rf * Rf) * T * de * amp;
        return b;
    }
};
} // namespace vf
