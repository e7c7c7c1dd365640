// P06: Cartesian <-> Keplerian elements.
#include "bounds.hpp"
#include <kep3/core_astro/ic2par2ic.hpp>
using namespace vf;

namespace
{
// Error bounds of elements computed from a state with inverse cosines (eps: unit roundoff times margin).
struct ElB {
    double a, e, i, W, w, f;
};
ElB el_bounds(const ref::RV &x, const ref::Par &q, double mu, double eps)
{
    const double R = ref::d(ref::norm(x.r)), V = ref::d(ref::norm(x.v)), h = ref::d(ref::norm(ref::cross(x.r, x.v)));
    const double e = ref::d(q.e), inc = ref::d(q.i);
    const double rh = R * V / h; // amplification of the cross product
    const double de = eps * (2 + 2 * V * h / mu + 2 * rh * V * h / mu);
    const double kn = rh / std::sin(inc);
    ElB b;
    b.e = de;
    b.a = std::abs(ref::d(q.a)) * (2 * e * de / std::abs(1 - e * e) + eps * (2 + 4 * rh));
    b.i = acos_err(inc, eps * (1 + rh));
    b.W = acos_err(ref::d(q.W), eps * (1 + kn)) + eps * kn;
    b.w = acos_err(ref::d(q.w), eps * (1 + kn) + de / (e * std::sin(inc)));
    b.f = acos_err(ref::d(q.f), eps + de / e + eps * (1 + rh) * 2);
    return b;
}
void compare_elements(Recorder &rec, const std::string &tag, const std::array<double, 6> &el, const ref::Par &q, const ElB &b, const std::function<std::string()> &in)
{
    rec.check(tag + ":a", std::abs(ref::d(el[0] - q.a)), b.a, in);
    rec.check(tag + ":e", std::abs(ref::d(el[1] - q.e)), b.e, in);
    rec.check(tag + ":i", std::abs(ref::d(el[2] - q.i)), b.i, in);
    rec.check(tag + ":W", std::abs(ref::d(ref::angdiff(el[3], q.W))), b.W, in);
    rec.check(tag + ":w", std::abs(ref::d(ref::angdiff(el[4], q.w))), b.w, in);
    rec.check(tag + ":f", std::abs(ref::d(ref::angdiff(el[5], q.f))), b.f, in);
    const double s = 1e-14;
    bool ok = (el[0] > 0) == (q.e < 1) && el[1] >= 0 && el[2] >= -s && el[2] <= M_PI + s;
    for (int j = 3; j < 6; ++j) ok = ok && el[j] >= -s && el[j] <= 2 * M_PI + s;
    rec.require(tag + ":ranges", ok, in);
}
RVB par2ic_bound(const std::array<double, 6> &el, const ref::RV &x, double mu)
{
    const double e = el[1], R = ref::d(ref::norm(x.r)), V = ref::d(ref::norm(x.v)), p = std::abs(el[0] * (1 - e * e));
    const double kp = (1 + e * e) / std::abs(1 - e * e), den = std::abs(p / R);
    RVB b;
    b.r = EPS * R * (4 + kp + (1 + e) / den);
    b.v = EPS * ((4 + kp) * V + 4 * std::sqrt(mu / p) * (1 + e));
    return b;
}
} // namespace

int main(int argc, char **argv)
{
    return drive(argc, argv, 6, [](Recorder &rec, Rng &g, long i) {
        const bool calib = rec.opt.mode == "calib";
        const double K = calib ? 1 : 50;
        Orbit o = orbit(g, false, false);
        const std::string reg = calib ? ":" + o.regime : "";
        // 1 - elements -> state
        std::array<double, 6> el{o.a, o.e, o.inc, o.W, o.w, o.f};
        if (g.p(0.1)) // angles are defined modulo 2 pi
            for (int j = 3; j < 6; ++j) el[j] -= 2 * M_PI * static_cast<double>(g.n(2));
        auto ine = [&] { return J().t("call", "par2ic").a("elements", el).d("mu", o.mu).t("regime", o.regime).str(); };
        const ref::RV xr = ref::par2ic(el[0], el[1], el[2], el[3], el[4], el[5], o.mu);
        const RVB pb = par2ic_bound(el, xr, o.mu);
        if (el[1] > 1 && 1 + el[1] * std::cos(el[5]) < 1e-9) {
            rec.ev("skipped:asymptote");
            return;
        }
        rv_t st;
        try {
            st = kep3::par2ic(el, o.mu);
        } catch (const std::exception &e) {
            rec.violate("par2ic:refuses-valid-elements", e.what(), ine());
            return;
        }
        rec.check("par2ic:position" + reg, ref::dist(xr.r, st[0]), K * pb.r, ine);
        rec.check("par2ic:velocity" + reg, ref::dist(xr.v, st[1]), K * pb.v, ine);

        // 2 - state -> elements; sometimes states that are exactly at an apse / node / axis aligned
        rv_t s2 = o.rv;
        std::string how = "generic";
        if (g.p(0.2)) {
            how = "axis-aligned";
            const double R = ref::d(ref::norm(ref::toQ(o.rv[0])));
            const double vc = std::sqrt(o.mu / R) * (g.p(0.3) ? g.u(1.45, 4) : g.u(0.1, 1.38));
            const double th = inclination(g, false);
            const double fr = g.p(0.6) ? 0. : g.u(-0.9, 0.9);
            const double c = std::sqrt(1 - fr * fr);
            const int ax = static_cast<int>(g.n(2));
            const double sg = g.sgn();
            s2[0] = {0, 0, 0};
            s2[0][ax] = sg * R;
            s2[1] = {0, 0, 0};
            s2[1][ax] = sg * fr * vc;
            s2[1][1 - ax] = vc * c * std::cos(th);
            s2[1][2] = vc * c * std::sin(th) * g.sgn();
        } else if (g.p(0.1)) {
            how = "polar-aligned"; // on the z axis: highest or lowest point of a polar orbit
            const double R = ref::d(ref::norm(ref::toQ(o.rv[0])));
            const double vc = std::sqrt(o.mu / R) * g.u(0.2, 1.3), th = angle(g);
            s2 = {{{0, 0, g.sgn() * R}, {vc * std::cos(th), vc * std::sin(th), g.p(0.5) ? 0. : vc * 0.3}}};
        }
        const ref::RV x = ref::toQ(s2);
        const ref::Par q = ref::ic2par(x, o.mu);
        auto ins = [&] { return J().t("call", "ic2par").t("state", how).rv("rv", s2).d("mu", o.mu).t("regime", o.regime).str(); };
        if (q.e < 1e-8Q || sinq(q.i) < 1e-8Q || fabsq(1 - q.e) < 1e-6Q) {
            rec.ev("skipped:singular");
            return;
        }
        rec.ev("state:" + how);
        const ElB b = el_bounds(x, q, o.mu, K * EPS);
        const auto e2 = kep3::ic2par(s2, o.mu);
        compare_elements(rec, "ic2par" + reg, e2, q, b, ins);
        rec.nontriv(hash_vec(s2[0], hash_vec(s2[1], hash_vec(el))));
        rec.sample(ins);

        // 3 - and back: the state the returned elements define (true reference) and the state kep3 returns for them
        {
            const double e = ref::d(q.e), R = ref::d(ref::norm(x.r)), V = ref::d(ref::norm(x.v)), h = ref::d(ref::norm(ref::cross(x.r, x.v)));
            const double rot = b.i + b.W + b.w, p = h * h / o.mu, ve = std::sqrt(o.mu / p);
            const double amp = 2 * b.e * (e + 1) / std::abs(1 - e * e) + b.a / std::abs(ref::d(q.a));
            const double Br = R * (rot + amp + b.e * R / p) + V * R * R / h * b.f + K * pb.r * 4, Bv = (V + ve) * (rot + amp + 2 * b.e + 2 * b.f) + K * pb.v * 4;
            const bool beyond = e > 1 && 1 + e2[1] * std::cos(e2[5]) < 1e-6; // rounding may put it beyond the asymptote
            if (Br < 1e-3 * R && Bv < 1e-3 * V && !beyond) {
                try {
                    const auto s3 = kep3::par2ic(e2, o.mu);
                    rec.check("roundtrip:position" + reg, ref::dist(x.r, s3[0]), Br, ins);
                    rec.check("roundtrip:velocity" + reg, ref::dist(x.v, s3[1]), Bv, ins);
                } catch (const std::exception &ex) {
                    rec.violate("roundtrip:throws", ex.what(), ins());
                }
            }
        }
        // 4 - inconsistent elements are refused
        {
            auto bad = el;
            bad[0] = -bad[0];
            auto inb = [&] { return J().t("call", "par2ic").a("elements", bad).d("mu", o.mu).str(); };
            bool thrown = false;
            try {
                (void)kep3::par2ic(bad, o.mu);
            } catch (const std::domain_error &) {
                thrown = true;
            }
            rec.require("par2ic:refuses-wrong-conic", thrown, inb);
            if (o.e > 1.001) {
                bad = el;
                const double fl = std::acos(-1 / o.e);
                bad[5] = g.p(0.5) ? g.u(fl + 1e-6, 2 * M_PI - fl - 1e-6) : (g.p(0.5) ? fl + 1e-9 : 2 * M_PI - fl - 1e-9);
                if (g.p(0.3)) bad[5] -= 2 * M_PI;
                thrown = false;
                try {
                    (void)kep3::par2ic(bad, o.mu);
                } catch (const std::domain_error &) {
                    thrown = true;
                }
                rec.require("par2ic:refuses-beyond-asymptote", thrown, inb);
            }
        }
    });
}
