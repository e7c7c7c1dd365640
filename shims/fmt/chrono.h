// Stand-in for the time point formatting of fmt >= 10 (which kep3 is written for): UTC, and %S / %T with the sub-second
// digits of the time point's duration. Everything else is the installed fmt's.
#pragma once
#include_next <fmt/chrono.h>
#include <chrono>
#include <cstdio>
#include <string>
namespace vf_shim
{
template <class Duration>
struct tp_formatter {
    std::string spec = "%F %T";
    template <class Ctx>
    constexpr auto parse(Ctx &ctx)
    {
        auto it = ctx.begin(), end = ctx.end();
        auto b = it;
        while (it != end && *it != '}') ++it;
        if (it != b) spec = std::string(b, it);
        return it;
    }
    template <class Tp, class Ctx>
    auto format(const Tp &tp, Ctx &ctx) const
    {
        using namespace std::chrono;
        const auto day = floor<days>(tp);
        const year_month_day ymd(day);
        const auto tod = tp - day; // non-negative
        const auto sec = duration_cast<seconds>(tod).count();
        constexpr int digits = [] {
            int d = 0;
            for (long long k = 1; k < Duration::period::den; k *= 10) ++d;
            return d;
        }();
        std::string frac;
        if constexpr (digits > 0) {
            const auto sub = tod - duration_cast<seconds>(tod);
            char b[32];
            std::snprintf(b, sizeof b, ".%0*lld", digits, static_cast<long long>(sub.count()));
            frac = b;
        }
        std::string o;
        auto put = [&](const char *f, long long v) {
            char b[32];
            std::snprintf(b, sizeof b, f, v);
            o += b;
        };
        auto year = [&] { put("%04lld", static_cast<long long>(static_cast<int>(ymd.year()))); };
        auto mon = [&] { put("%02lld", static_cast<long long>(static_cast<unsigned>(ymd.month()))); };
        auto dom = [&] { put("%02lld", static_cast<long long>(static_cast<unsigned>(ymd.day()))); };
        auto H = [&] { put("%02lld", sec / 3600); };
        auto M = [&] { put("%02lld", sec / 60 % 60); };
        auto S = [&] {
            put("%02lld", sec % 60);
            o += frac;
        };
        for (std::size_t i = 0; i < spec.size(); ++i) {
            if (spec[i] != '%' || i + 1 == spec.size()) {
                o += spec[i];
                continue;
            }
            switch (spec[++i]) {
                case 'F':
                    year();
                    o += '-';
                    mon();
                    o += '-';
                    dom();
                    break;
                case 'T':
                    H();
                    o += ':';
                    M();
                    o += ':';
                    S();
                    break;
                case 'R':
                    H();
                    o += ':';
                    M();
                    break;
                case 'Y':
                    year();
                    break;
                case 'm':
                    mon();
                    break;
                case 'd':
                    dom();
                    break;
                case 'H':
                    H();
                    break;
                case 'M':
                    M();
                    break;
                case 'S':
                    S();
                    break;
                default:
                    o += spec[i];
            }
        }
        auto out = ctx.out();
        for (char c : o) *out++ = c;
        return out;
    }
};
} // namespace vf_shim
#define VF_SHIM_TP(D)                                                                                                                                                                              \
    template <>                                                                                                                                                                                    \
    struct fmt::formatter<std::chrono::time_point<std::chrono::system_clock, D>, char> : vf_shim::tp_formatter<D> {                                                                                \
    };
VF_SHIM_TP(std::chrono::nanoseconds)
VF_SHIM_TP(std::chrono::microseconds)
VF_SHIM_TP(std::chrono::milliseconds)
VF_SHIM_TP(std::chrono::seconds)
VF_SHIM_TP(std::chrono::minutes)
VF_SHIM_TP(std::chrono::hours)
VF_SHIM_TP(std::chrono::days)
#undef VF_SHIM_TP
