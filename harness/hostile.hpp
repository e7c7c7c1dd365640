// Hostile values: what the callers of a numeric library pass by accident or on purpose.
#pragma once
#include "gen.hpp"
#include <cstring>
#include <limits>
namespace vf
{
using v3 = std::array<double, 3>;
inline double hostile(Rng &g)
{
    static const std::vector<double> sp{0., -0., 1., -1., 2., 0.5, M_PI, -M_PI, 2 * M_PI, 1e-300, -1e-300, 1e-160, 1e-154, 1e-100, 1e-20, 1e20, 1e100, 1e154, 1e155, 1e200, 1e300, -1e300, 1e308,
                                        std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::min(), std::numeric_limits<double>::max(),
                                        -std::numeric_limits<double>::max(), std::numeric_limits<double>::epsilon(), 1 + std::numeric_limits<double>::epsilon(), 1 - std::numeric_limits<double>::epsilon() / 2,
                                        std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), -std::numeric_limits<double>::quiet_NaN(),
                                        4294967295., 4294967296., 2147483648., -2147483649., 9.3e18, 1.9e19, 3., 1e6, 1e9, -1e9};
    const double r = g.u();
    if (r < 0.75) return sp[g.n(sp.size())];
    if (r < 0.9) return g.sgn() * std::exp(g.u(-708., 709.));
    if (r < 0.95) {
        const std::uint64_t b = g.next();
        double x;
        std::memcpy(&x, &b, sizeof x);
        return x;
    }
    return g.gauss();
}
struct Mut { // turns ordinary arguments into hostile ones
    Rng &g;
    double rate;
    double operator()(double x) const { return g.p(rate) ? hostile(g) : x; }
    void v(v3 &x) const
    {
        const double r = g.u();
        for (auto &e : x) e = (*this)(e);
        if (r < 0.05 * (rate > 0 ? 1 : 0)) x = {0., 0., g.sgn() * x[2]};      // on the z axis
        else if (r < 0.10 * (rate > 0 ? 1 : 0)) x = {x[0], 0., 0.};
        else if (r < 0.12 * (rate > 0 ? 1 : 0)) x = {0., 0., 0.};
    }
    void rv(rv_t &x) const
    {
        v(x[0]);
        v(x[1]);
        if (rate > 0 && g.p(0.05)) x[1] = x[0]; // rectilinear
        if (rate > 0 && g.p(0.03)) x[1] = {0., 0., 0.};
    }
};
} // namespace vf
