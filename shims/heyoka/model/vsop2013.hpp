// A made-up theory with the interface of heyoka's VSOP2013: the real one needs heyoka's tables. Cubic polynomials of the time in thousands of
// Julian years, different for every planet, component and threshold, so that whatever goes through kep3's planet can be recomputed exactly.
#pragma once
#include <array>
#include <cstdint>
#include <stdexcept>
#include <vector>

#include <heyoka/expression.hpp>
#include <heyoka/kw.hpp>

namespace heyoka
{
namespace kw
{
struct texpr_v {
    expression v;
};
struct texpr_k {
    texpr_v operator=(const expression &e) const { return {e}; }
};
struct thresh_v {
    double v;
};
struct thresh_k {
    thresh_v operator=(double x) const { return {x}; }
};
inline constexpr texpr_k time_expr{};
inline constexpr thresh_k thresh{};
} // namespace kw
namespace model
{
inline std::array<double, 10> get_vsop2013_mus()
{
    return {2.9591220836841438269e-04, 4.9125474514508118699e-11, 7.2434524861627027000e-10, 8.9970116036316091182e-10, 9.5495351057792580598e-11,
            2.8253458420837780000e-07, 8.4597151856806587398e-08, 1.2920249167819693900e-08, 1.5243589007842762800e-08, 2.1886997654259696800e-12};
}
// The coefficient of T^k in component c (0-2 position in AU, 3-5 velocity in AU/day) of planet p (1-9)
inline double vf_coefficient(unsigned p, unsigned c, unsigned k, double thresh)
{
    std::uint32_t h = p * 2654435761u + c * 40503u + k * 2246822519u + 12345u;
    h ^= h >> 15;
    h *= 2246822519u;
    h ^= h >> 13;
    const double u = static_cast<double>(h) / 4294967296. - 0.5;
    const double size = (c < 3 ? 0.4 * p : 0.02 / p);
    return size * (1 + (k == 0)) * (u + (k < 2 ? 0.5 : 0.1)) * (1 + thresh * (1 + c + 2. * k));
}
struct vf_args {
    expression t;
    double thresh = 1e-9;
    void add(const kw::texpr_v &v) { t = v.v; }
    void add(const kw::thresh_v &v) { thresh = v.v; }
};
template <typename... A>
std::vector<expression> vf_theory(std::uint32_t p, unsigned frame, const A &...a)
{
    vf_args x;
    (x.add(a), ...);
    if (p < 1 || p > 9) throw std::invalid_argument("mini-heyoka: planet index");
    std::vector<expression> r;
    for (unsigned c = 0; c < 6; ++c) {
        expression e = vf_coefficient(p, c + 6 * frame, 3, x.thresh);
        for (unsigned k = 3; k-- > 0;) e = e * x.t + expression(vf_coefficient(p, c + 6 * frame, k, x.thresh));
        r.push_back(e);
    }
    return r;
}
template <typename... A>
std::vector<expression> vsop2013_cartesian_icrf(std::uint32_t p, const A &...a)
{
    return vf_theory(p, 0, a...);
}
// the ecliptic frame: other coefficients
template <typename... A>
std::vector<expression> vsop2013_cartesian(std::uint32_t p, const A &...a)
{
    return vf_theory(p, 1, a...);
}
} // namespace model
} // namespace heyoka
