// P16: epochs against integer arithmetic on a proleptic Gregorian calendar of the monitor's own.
#include "common.hpp"
#include <fmt/core.h>
#include <kep3/core_astro/convert_julian_dates.hpp>
#include <kep3/epoch.hpp>
using namespace vf;
using kep3::epoch;
using i64 = std::int64_t;
using i128 = __int128;
using Q = __float128;
namespace
{
constexpr i64 US = 1000000, DAY = 86400 * US;
constexpr i64 Y2K = 10957 * DAY; // of MJD2000 0 since 1970
constexpr i64 LIM = 100000000LL * DAY;
// Days since 1970-01-01 by counting: years in blocks of 400, then year by year, month by month.
bool leap(i64 y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int mdays(i64 y, int m)
{
    static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : d[m - 1];
}
i64 civil(i64 y, int m, int d)
{
    i64 days = 0;
    while (y < 1970) {
        y += 400;
        days -= 146097;
    }
    while (y >= 2370) {
        y -= 400;
        days += 146097;
    }
    for (i64 k = 1970; k < y; ++k) days += leap(k) ? 366 : 365;
    for (int k = 1; k < m; ++k) days += mdays(y, k);
    return days + d - 1;
}
struct Date {
    i64 y;
    int mo, d, h, mi, s, us;
    i64 ticks() const { return civil(y, mo, d) * DAY + ((h * 60LL + mi) * 60 + s) * US + us; }
    std::string iso(int len, char sep) const
    {
        char b[64];
        std::snprintf(b, sizeof b, "%04d-%02d-%02d%c%02d:%02d:%02d.%06d", static_cast<int>(y), mo, d, sep, h, mi, s, us);
        return std::string(b).substr(0, static_cast<std::size_t>(len));
    }
};
Date date(Rng &g, i64 ylo, i64 yhi)
{
    Date x;
    const double r = g.u();
    x.y = r < 0.5 ? 1900 + static_cast<i64>(g.n(200)) : ylo + static_cast<i64>(g.n(static_cast<std::uint64_t>(yhi - ylo + 1)));
    if (g.p(0.2)) x.y = std::clamp<i64>(x.y / 100 * 100, ylo, yhi); // century years
    if (g.p(0.1)) x.y = std::clamp<i64>(x.y / 400 * 400, ylo, yhi);
    x.mo = 1 + static_cast<int>(g.n(12));
    if (g.p(0.15)) x.mo = 2;
    x.d = g.p(0.2) ? mdays(x.y, x.mo) : g.p(0.1) ? 1 : 1 + static_cast<int>(g.n(static_cast<unsigned>(mdays(x.y, x.mo))));
    auto part = [&](int n) { return g.p(0.15) ? 0 : g.p(0.15) ? n - 1 : static_cast<int>(g.n(static_cast<unsigned>(n))); };
    x.h = part(24);
    x.mi = part(60);
    x.s = part(60);
    x.us = g.p(0.2) ? static_cast<int>(g.n(10)) : part(1000000);
    return x;
}
i64 ticks(const epoch &e) { return e.get_tp().time_since_epoch().count(); }
bool sane(i128 t) { return t >= i128(Y2K) - LIM && t <= i128(Y2K) + LIM; }
template <class F>
bool refused(F f)
{
    try {
        f();
    } catch (const std::exception &) {
        return true;
    }
    return false;
}
double dd(Q x) { return static_cast<double>(x); }
} // namespace

int main(int argc, char **argv)
{
    return drive(argc, argv, 16, [](Recorder &rec, Rng &g, long) {
        const Date a = date(g, 1, 9999);
        const i64 ta = a.ticks();
        auto in = [&] { return J().t("date", a.iso(26, 'T')).str(); };
        rec.nontriv(hash_bytes(&ta, 8));
        rec.sample(in);
        epoch e(static_cast<int>(a.y), static_cast<unsigned>(a.mo), static_cast<unsigned>(a.d), a.h, a.mi, a.s, a.us / 1000, a.us % 1000);
        rec.require("calendar", ticks(e) == ta, in);
        { // any year, any amount of hours ... microseconds
            const Date b = date(g, -32767, 32767);
            auto any = [&] { return g.p(0.5) ? 0 : static_cast<std::int32_t>(g.next()); };
            auto small = [&](int k) { return static_cast<std::int32_t>(g.n(static_cast<unsigned>(2 * k + 1))) - k; };
            std::int32_t h, mi, s, ms, us;
            if (g.p(0.5)) {
                h = small(100), mi = small(10000), s = small(1000000), ms = small(100000), us = small(2000000);
            } else
                h = any(), mi = any(), s = any(), ms = any(), us = any();
            const i128 want = i128(civil(b.y, b.mo, b.d)) * DAY + i128(h) * 3600 * US + i128(mi) * 60 * US + i128(s) * US + i128(ms) * 1000 + us;
            auto inb = [&] { return J().i("y", b.y).i("mo", b.mo).i("d", b.d).i("h", h).i("min", mi).i("s", s).i("ms", ms).i("us", us).str(); };
            auto make = [&] { return epoch(static_cast<int>(b.y), static_cast<unsigned>(b.mo), static_cast<unsigned>(b.d), h, mi, s, ms, us); };
            if (sane(want))
                rec.require("calendar:offsets", ticks(make()) == static_cast<i64>(want), inb);
            else
                rec.require("calendar:refuses-out-of-range", refused(make), inb);
            // fields left out count zero
            epoch e0(static_cast<int>(b.y), static_cast<unsigned>(b.mo), static_cast<unsigned>(b.d));
            rec.require("calendar:date-only", ticks(e0) == civil(b.y, b.mo, b.d) * DAY, inb);
            const unsigned bad = g.p(0.5) ? 0u : g.p(0.5) ? 13u + static_cast<unsigned>(g.n(500)) : static_cast<unsigned>(g.next()) | 16u;
            rec.require("calendar:refuses-month", refused([&] { epoch(static_cast<int>(b.y), bad, 1u); }), [&] { return J().i("month", bad).str(); });
            const unsigned badd = g.p(0.5) ? 0u : g.p(0.5) ? 32u + static_cast<unsigned>(g.n(500)) : static_cast<unsigned>(g.next()) | 32u;
            rec.require("calendar:refuses-day", refused([&] { epoch(static_cast<int>(b.y), 1u, badd); }), [&] { return J().i("day", badd).str(); });
            const int bady = static_cast<int>(g.sgn()) * (32768 + static_cast<int>(g.n(g.p(0.5) ? 200000 : 2000000000)));
            rec.require("calendar:refuses-year", refused([&] { epoch(bady, 1u, 1u); }), [&] { return J().i("year", bady).str(); });
        }
        // ---- strings
        static const int lens[] = {7, 10, 13, 16, 19, 21, 22, 23, 24, 25, 26};
        for (int len : lens) {
            Date c = a;
            if (len < 21)
                c.us = 0;
            else {
                int f = 1;
                for (int k = len; k < 26; ++k) f *= 10;
                c.us = a.us / f * f;
            }
            if (len < 19) c.s = 0;
            if (len < 16) c.mi = 0;
            if (len < 13) c.h = 0;
            if (len < 10) c.d = 1;
            const std::string s = a.iso(len, g.p(0.5) ? 'T' : ' ');
            rec.require("string", ticks(epoch(s)) == c.ticks(), [&] { return J().t("string", s).i("got", ticks(epoch(s))).i("want", c.ticks()).str(); });
        }
        {
            std::string s = a.iso(static_cast<int>(g.n(26)) + 1, 'T');
            if (std::find(std::begin(lens), std::end(lens), static_cast<int>(s.size())) == std::end(lens)) rec.require("string:refuses-length", refused([&] { epoch{s}; }), [&] { return J().t("string", s).str(); });
            s = a.iso(26, 'T') + std::string(1 + g.n(5), '0');
            rec.require("string:refuses-length", refused([&] { epoch{s}; }), [&] { return J().t("string", s).str(); });
            s = a.iso(lens[g.n(11)], 'T');
            static const int pos[] = {0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18, 20, 21, 22, 23, 24, 25};
            const int p = pos[g.n(20)];
            if (p < static_cast<int>(s.size())) {
                static const char junk[] = "-+ xTZ:.eO/\t";
                s[static_cast<std::size_t>(p)] = junk[g.n(sizeof junk - 1)];
                rec.require("string:refuses-field", refused([&] { epoch{s}; }), [&] { return J().t("string", s).str(); });
            }
            s = a.iso(lens[g.n(11)], 'T');
            s.replace(5, 2, g.p(0.5) ? "00" : "13");
            rec.require("string:refuses-month", refused([&] { epoch{s}; }), [&] { return J().t("string", s).str(); });
            s = a.iso(lens[1 + g.n(10)], 'T');
            s.replace(8, 2, g.p(0.5) ? "00" : "32");
            rec.require("string:refuses-day", refused([&] { epoch{s}; }), [&] { return J().t("string", s).str(); });
            rec.require("string:refuses-format", refused([&] { epoch(a.iso(10, 'T'), static_cast<epoch::string_format>(1 + g.n(5))); }), in);
        }
        const std::string utc = e.as_utc_string();
        std::ostringstream os;
        os << e;
        rec.require("utc-string", utc == a.iso(26, 'T'), [&] { return J().t("got", utc).t("want", a.iso(26, 'T')).str(); });
        rec.require("utc-string:same", os.str() == utc && epoch::as_utc_string(e.get_tp()) == utc && fmt::format("{}", e) == utc, in);
        rec.require("utc-string:round-trip", epoch(utc) == e, in);
        // ---- numbers
        auto days_of = [&](i64 t) { return Q(t) / DAY; };
        const double mjd2000 = e.mjd2000(), mjd = e.mjd(), jd = e.jd();
        const Q q = days_of(ta - Y2K);
        constexpr double eps = 0x1p-52;
        rec.check("mjd2000", std::abs(dd(Q(mjd2000) - q)), 4 * eps * std::abs(dd(q)) + 1e-300, in);
        rec.check("mjd", std::abs(dd(Q(mjd) - q - 51544)), 4 * eps * std::abs(dd(q + 51544)) + 1e-300, in);
        rec.check("jd", std::abs(dd(Q(jd) - q - Q(2451544.5))), 4 * eps * std::abs(dd(q + Q(2451544.5))), in);
        struct Cal {
            epoch::julian_type t;
            double offset;
            const char *n;
        };
        for (const Cal &c : {Cal{epoch::julian_type::MJD2000, 0., "mjd2000"}, Cal{epoch::julian_type::MJD, 51544., "mjd"}, Cal{epoch::julian_type::JD, 2451544.5, "jd"}}) {
            double x = g.p(0.3) ? std::floor(g.u(-1e5, 1e5)) : g.p(0.5) ? g.u(-1e5, 1e5) : g.sgn() * g.logu(1e-11, 9e7);
            if (g.p(0.1)) x = std::floor(x) + 0.5;
            if (g.p(0.05)) x = 0.;
            x += c.offset;
            const epoch ex(x, c.t);
            const Q want = (Q(x) - c.offset) * DAY + Y2K;
            auto inx = [&] { return J().t("type", c.n).d("days", x).i("ticks", ticks(ex)).str(); };
            rec.check(std::string("from:") + c.n, std::abs(dd(Q(ticks(ex)) - want)), 1.0000001 + 2 * eps * std::abs(x) * 86400e6, inx);
            if (x == std::floor(x * 2) / 2) rec.require(std::string("from-half-days:") + c.n, Q(ticks(ex)) == want, inx);
            if (c.offset == 0.) rec.require("from:default-type", epoch(x) == ex, inx);
            // back and forth: within the resolution of the number and of the epoch
            const double back = c.offset == 0. ? ex.mjd2000() : c.offset == 51544. ? ex.mjd() : ex.jd();
            rec.check(std::string("round-trip:") + c.n, std::abs(back - x), 1.0000001 / 86400e6 + 4 * eps * std::abs(x), inx);
            const epoch again(back, c.t);
            rec.check(std::string("round-trip-ticks:") + c.n, std::abs(dd(Q(ticks(again)) - Q(ticks(ex)))), 1.0000001 + 6 * eps * std::abs(x) * 86400e6, inx);
            // an integer number of days is exact in all three
            const double n = std::floor(g.u(-2e6, 2e6));
            rec.require(std::string("whole-days:") + c.n, ticks(epoch(n + c.offset, c.t)) == Y2K + static_cast<i64>(n) * DAY, [&] { return J().d("days", n).t("type", c.n).str(); });
            static const double bads[] = {NAN, INFINITY, -INFINITY, 1e9, -1e9, 1.1e8, -1.1e8, 1e300, -1e300, 1e19};
            const double bad = bads[g.n(10)];
            rec.require("refuses-number", refused([&] { epoch(bad, c.t); }), [&] { return J().d("days", bad).t("type", c.n).str(); });
        }
        rec.require("refuses-type", refused([&] { epoch(1., static_cast<epoch::julian_type>(3 + g.n(9))); }), in);
        {
            const double x = g.sgn() * g.logu(1e-3, 1e7);
            auto inx = [&] { return J().d("days", x).str(); };
            const double u = 4 * eps * (std::abs(x) + 2451544.5);
            rec.check("convert", std::abs(kep3::jd2mjd(x) - (x - 2400000.5)), u, inx);
            rec.check("convert", std::abs(kep3::jd2mjd2000(x) - (x - 2451544.5)), u, inx);
            rec.check("convert", std::abs(kep3::mjd2jd(x) - (x + 2400000.5)), u, inx);
            rec.check("convert", std::abs(kep3::mjd2mjd2000(x) - (x - 51544)), u, inx);
            rec.check("convert", std::abs(kep3::mjd20002jd(x) - (x + 2451544.5)), u, inx);
            rec.check("convert", std::abs(kep3::mjd20002mjd(x) - (x + 51544)), u, inx);
        }
        // ---- arithmetic
        const Date bdate = date(g, 1, 9999);
        i64 tb = g.p(0.2) ? ta + static_cast<i64>(g.n(5)) - 2 : bdate.ticks();
        const epoch b = e + kep3::microseconds(tb - ta);
        auto in2 = [&] { return J().i("ta", ta).i("tb", tb).str(); };
        rec.require("plus-microseconds", ticks(b) == tb, in2);
        rec.require("compare", (e < b) == (ta < tb) && (e > b) == (ta > tb) && (e <= b) == (ta <= tb) && (e >= b) == (ta >= tb) && (e == b) == (ta == tb) && (e != b) == (ta != tb), in2);
        rec.require("difference", (b - e).count() == tb - ta && (e - b).count() == ta - tb, in2);
        rec.check("as_sec", std::abs(dd(Q(epoch::as_sec(b - e)) - Q(tb - ta) / US)), 4 * eps * std::abs(static_cast<double>(tb - ta)) * 1e-6 + 1e-300, in2);
        auto arith = [&](const char *n, auto d, i128 us) {
            auto in3 = [&] { return J().t("duration", n).i("us", static_cast<long long>(us)).i("ta", ta).str(); };
            epoch x = e, y = e;
            auto ok = [&](i128 want, auto f) {
                if (!sane(want))
                    rec.require(std::string("refuses-far:") + n, refused(f), in3);
                else
                    rec.require(std::string("add:") + n, ticks(f()) == static_cast<i64>(want), in3);
            };
            ok(ta + us, [&] { return x + d; });
            ok(ta - us, [&] { return x - d; });
            ok(ta + us, [&]() -> epoch {
                epoch &r = (y += d);
                return &r == &y ? y : epoch();
            });
            y = e;
            ok(ta - us, [&]() -> epoch {
                epoch &r = (y -= d);
                return &r == &y ? y : epoch();
            });
            rec.require("operands-untouched", ticks(x) == ta, in3);
            if (sane(Y2K + us)) rec.require(std::string("from-duration:") + n, ticks(epoch(d)) == Y2K + static_cast<i64>(us), in3);
        };
        auto k = [&](double m) { return static_cast<i64>(g.sgn() * (g.p(0.3) ? static_cast<double>(g.n(100)) : g.logu(1., m))); };
        i64 v = k(1e18);
        arith("microseconds", kep3::microseconds(v), v);
        v = k(1e15);
        arith("milliseconds", std::chrono::milliseconds(v), i128(v) * 1000);
        v = k(1e12);
        arith("seconds", std::chrono::seconds(v), i128(v) * US);
        v = k(1e10);
        arith("minutes", std::chrono::duration<i64, std::ratio<60>>(v), i128(v) * 60 * US);
        v = k(1e9);
        arith("hours", std::chrono::duration<i64, std::ratio<3600>>(v), i128(v) * 3600 * US);
        v = k(2e7);
        arith("days", std::chrono::days(v), i128(v) * DAY);
        v = k(1e18);
        arith("nanoseconds", std::chrono::nanoseconds(v), i128(v) / 1000);
        auto near = [&](const char *n, i64 got, Q want) { rec.check(std::string("add:") + n, std::abs(dd(Q(got) - want)), 1.0000001 + 2 * eps * std::abs(dd(want)), in2); };
        {
            const double x = g.sgn() * g.logu(1e-9, 1e6);
            const std::chrono::duration<double, std::ratio<86400>> D(x);
            const std::chrono::duration<double> S(x);
            epoch y = e;
            near("days-double", ticks(y + D) - ta, Q(x) * DAY);
            near("days-double", ticks(y - D) - ta, -Q(x) * DAY);
            near("seconds-double", ticks(y + S) - ta, Q(x) * US);
            near("days()", epoch::days(x).count(), Q(x) * DAY);
            near("sec()", epoch::sec(x).count(), Q(x) * US);
        }
        // ---- copies and time points
        epoch cp(e), as;
        as = b;
        epoch mv(std::move(cp));
        rec.require("copies", mv == e && as == b && ticks(epoch(e.get_tp())) == ta, in2);
        rec.require("default", ticks(epoch()) == Y2K && epoch() == epoch(0.), in);
        const auto n0 = std::chrono::duration_cast<kep3::microseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
        const i64 nw = ticks(epoch::now());
        const auto n1 = std::chrono::duration_cast<kep3::microseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
        if (n0 <= n1) rec.require("now", nw >= n0 && nw <= n1 + 1, [&] { return J().i("now", nw).str(); });
    });
}
