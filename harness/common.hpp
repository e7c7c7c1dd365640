// Shared by every monitor: deterministic case generation, event recording, crash/hang attribution.
#pragma once
#include <algorithm>
#include <array>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf
{

inline std::uint64_t splitmix(std::uint64_t &s)
{
    std::uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

struct Rng {
    std::uint64_t s[4];
    explicit Rng(std::uint64_t seed)
    {
        for (auto &x : s) x = splitmix(seed);
    }
    std::uint64_t next()
    {
        auto rotl = [](std::uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        const std::uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = rotl(s[3], 45);
        return r;
    }
    double u() { return static_cast<double>(next() >> 11) * 0x1.0p-53; } // [0,1)
    double u(double a, double b) { return a + (b - a) * u(); }
    double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
    std::uint64_t n(std::uint64_t k) { return next() % k; }
    bool p(double q) { return u() < q; }
    double sgn() { return (next() & 1) ? 1. : -1.; }
    double gauss()
    {
        const double a = 1. - u(), b = u();
        return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b);
    }
    template <class T>
    const T &pick(const std::vector<T> &v)
    {
        return v[n(v.size())];
    }
};

inline std::string num(double x)
{
    char b[64];
    if (std::isnan(x)) return "\"nan\"";
    if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
    std::snprintf(b, sizeof b, "%.17g", x);
    return b;
}
inline std::string esc(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c < 32) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += static_cast<char>(c);
    }
    return o + "\"";
}
// Tiny JSON object builder (insertion order).
struct J {
    std::string s = "{";
    void key(const std::string &k)
    {
        if (s.size() > 1) s += ", ";
        s += esc(k) + ": ";
    }
    J &d(const std::string &k, double v)
    {
        key(k);
        s += num(v);
        return *this;
    }
    J &i(const std::string &k, long long v)
    {
        key(k);
        s += std::to_string(v);
        return *this;
    }
    J &t(const std::string &k, const std::string &v)
    {
        key(k);
        s += esc(v);
        return *this;
    }
    J &raw(const std::string &k, const std::string &v)
    {
        key(k);
        s += v;
        return *this;
    }
    template <class C>
    J &a(const std::string &k, const C &c)
    {
        key(k);
        s += "[";
        bool first = true;
        for (double x : c) {
            if (!first) s += ", ";
            first = false;
            s += num(x);
        }
        s += "]";
        return *this;
    }
    J &rv(const std::string &k, const std::array<std::array<double, 3>, 2> &x)
    {
        return a(k, std::array<double, 6>{x[0][0], x[0][1], x[0][2], x[1][0], x[1][1], x[1][2]});
    }
    std::string str() const { return s + "}"; }
};

inline std::uint64_t hash_bytes(const void *p, std::size_t n, std::uint64_t h = 1469598103934665603ULL)
{
    const auto *c = static_cast<const unsigned char *>(p);
    for (std::size_t i = 0; i < n; ++i) {
        h ^= c[i];
        h *= 1099511628211ULL;
    }
    return h;
}
template <class C>
std::uint64_t hash_vec(const C &c, std::uint64_t h = 1469598103934665603ULL)
{
    for (double x : c) h = hash_bytes(&x, sizeof x, h);
    return h;
}

struct Options {
    std::uint64_t seed = 1;
    long first = 0, last = 0, step = 1; // case indices
    std::string out, mode;
    bool sanitize = false; // the run's verdict is the sanitizers', oracles are still evaluated
    double cpu_limit = 60; // CPU seconds a single case may take
    std::map<std::string, std::string> extra;
};

// Records what the monitors observed. One instance per process.
struct Recorder {
    Options opt;
    FILE *out = nullptr;
    long cur = -1;
    long evaluations = 0;                         // cases run
    long nontrivial = 0;                          // cases in which at least one oracle decided on a non-trivial value
    std::map<std::string, long> counts;           // events by name
    std::map<std::string, double> maxima;         // largest normalised error by oracle
    std::unordered_set<std::uint64_t> distinct;   // hashes of distinct inputs that were non-trivial
    std::vector<std::string> samples;
    long violations = 0;
    std::map<std::string, long> vkeys;

    static Recorder *&self()
    {
        static Recorder *p = nullptr;
        return p;
    }
    void ev(const std::string &k, long n = 1) { counts[k] += n; }
    void seen(const std::string &oracle, double ratio)
    {
        auto it = maxima.find(oracle);
        if (it == maxima.end())
            maxima[oracle] = ratio;
        else if (!(ratio <= it->second))
            it->second = ratio;
    }
    void nontriv(std::uint64_t h)
    {
        ++nontrivial;
        if (distinct.size() < 150000) distinct.insert(h); // capped: the number reported is a lower bound
    }
    void sample(const std::function<std::string()> &f)
    {
        if (samples.size() < 3) samples.push_back(f());
    }
    bool sanitizers_decide = false; // set in sanitizer runs of monitors written for other properties
    void violate(const std::string &key, const std::string &what, const std::string &input)
    {
        if (sanitizers_decide) {
            ++counts["oracle-not-deciding-here:" + key];
            return;
        }
        ++violations;
        if (++vkeys[key] > 5) return; // keep the log small, the count is kept
        if (out) {
            std::fprintf(out, "{\"violation\": %s, \"what\": %s, \"case\": %ld, \"input\": %s}\n", esc(key).c_str(),
                         esc(what).c_str(), cur, input.c_str());
            std::fflush(out);
        }
    }
    // The standard oracle: |err| against bound; ratio>1 violates. Every decision is recorded.
    bool check(const std::string &oracle, double err, double bound, const std::function<std::string()> &input,
               const std::string &note = "")
    {
        counts["decided:" + oracle]++;
        const double ratio = err / bound;
        seen(oracle, ratio);
        if (!(ratio <= 1.)) {
            char b[160];
            std::snprintf(b, sizeof b, "%s: error %.3e exceeds bound %.3e %s", oracle.c_str(), err, bound,
                          note.c_str());
            violate(oracle, b, input());
            return false;
        }
        return true;
    }
    bool require(const std::string &oracle, bool ok, const std::function<std::string()> &input,
                 const std::string &note = "")
    {
        counts["decided:" + oracle]++;
        if (!ok) violate(oracle, oracle + " " + note, input());
        return ok;
    }
    void finish()
    {
        if (!out) return;
        std::string s = "{\"summary\": true, \"evaluations\": " + std::to_string(evaluations)
                        + ", \"nontrivial\": " + std::to_string(nontrivial)
                        + ", \"violations\": " + std::to_string(violations) + ", \"counts\": {";
        bool f = true;
        for (auto &[k, v] : counts) {
            s += (f ? "" : ", ") + esc(k) + ": " + std::to_string(v);
            f = false;
        }
        s += "}, \"maxima\": {";
        f = true;
        for (auto &[k, v] : maxima) {
            s += (f ? "" : ", ") + esc(k) + ": " + num(v);
            f = false;
        }
        s += "}, \"vkeys\": {";
        f = true;
        for (auto &[k, v] : vkeys) {
            s += (f ? "" : ", ") + esc(k) + ": " + std::to_string(v);
            f = false;
        }
        s += "}, \"samples\": [";
        f = true;
        for (auto &v : samples) {
            s += (f ? "" : ", ") + v;
            f = false;
        }
        s += "], \"hashes\": [";
        f = true;
        for (auto h : distinct) {
            // 53-bit so that any JSON reader keeps them exact
            s += (f ? "" : ",") + std::to_string(h & ((1ULL << 53) - 1));
            f = false;
        }
        s += "]}\n";
        std::fputs(s.c_str(), out);
        std::fclose(out);
        out = nullptr;
    }
};

// The number of the running case lives in a file mapping, so that the runner knows it after any kind of death.
struct Beacon {
    volatile long *p = nullptr;
    void open(const std::string &path)
    {
        const int fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0) return;
        if (::ftruncate(fd, 64) != 0) return;
        void *m = ::mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m != MAP_FAILED) p = static_cast<volatile long *>(m);
        ::close(fd);
    }
    void set(long i, long phase = 0)
    {
        if (p) {
            p[0] = i;
            p[1] = phase;
        }
    }
};
inline Beacon &beacon()
{
    static Beacon b;
    return b;
}
// Watchdog on CPU time consumed by one case.
inline void arm(double sec)
{
    itimerval it{};
    it.it_value.tv_sec = static_cast<time_t>(sec);
    it.it_value.tv_usec = static_cast<suseconds_t>((sec - std::floor(sec)) * 1e6);
    ::setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
extern "C" inline void vf_hang(int)
{
    static const char m[] = "\nVF-HANG: CPU limit of one case exceeded\n";
    if (::write(2, m, sizeof m - 1)) {
    }
    ::_exit(97);
}

inline Options parse(int argc, char **argv)
{
    Options o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto eq = a.find('=');
        std::string k = a.substr(0, eq), v = eq == std::string::npos ? "1" : a.substr(eq + 1);
        if (k == "seed")
            o.seed = std::stoull(v);
        else if (k == "first")
            o.first = std::stol(v);
        else if (k == "last")
            o.last = std::stol(v);
        else if (k == "step")
            o.step = std::stol(v);
        else if (k == "out")
            o.out = v;
        else if (k == "mode")
            o.mode = v;
        else if (k == "sanitize")
            o.sanitize = v == "1";
        else if (k == "cpu")
            o.cpu_limit = std::stod(v);
        else
            o.extra[k] = v;
    }
    return o;
}

// Runs cases first, first+step, ... < last. Every case has its own generator, so that a case can be replayed alone.
inline int drive(int argc, char **argv, std::uint64_t salt, const std::function<void(Recorder &, Rng &, long)> &fn)
{
    Recorder rec;
    rec.opt = parse(argc, argv);
    rec.sanitizers_decide = rec.opt.sanitize && !rec.opt.extra.count("own");
    Recorder::self() = &rec;
    if (!rec.opt.out.empty()) {
        rec.out = std::fopen(rec.opt.out.c_str(), "w");
        beacon().open(rec.opt.out + ".beacon");
    } else
        rec.out = stdout;
    std::signal(SIGVTALRM, vf_hang);
    for (long i = rec.opt.first; i < rec.opt.last; i += rec.opt.step) {
        rec.cur = i;
        beacon().set(i);
        std::uint64_t s = rec.opt.seed * 0x9E3779B97F4A7C15ULL ^ salt * 0xD1B54A32D192ED03ULL
                          ^ static_cast<std::uint64_t>(i) * 0x8CB92BA72F3D8DD7ULL;
        Rng g(splitmix(s));
        arm(rec.opt.cpu_limit);
        ++rec.evaluations;
        try {
            fn(rec, g, i);
        } catch (const std::exception &e) {
            rec.violate("unexpected-exception", std::string("exception out of a case: ") + e.what(), J().i("case", i).str());
        } catch (...) {
            rec.violate("unexpected-exception", "non-standard exception out of a case", J().i("case", i).str());
        }
    }
    arm(0);
    beacon().set(-1);
    rec.finish();
    return 0;
}

} // namespace vf
