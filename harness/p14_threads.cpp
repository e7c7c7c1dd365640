// P14: many threads at once against the same calls made alone, bit for bit; under ThreadSanitizer and in an optimised build.
#include "calls_shim.hpp"
#include <atomic>
#include <barrier>
#include <thread>
using namespace vf;
int main(int argc, char **argv)
{
    return drive(argc, argv, 14, [](Recorder &rec, Rng &g, long) {
        std::vector<Call> calls;
        core_calls(g, calls, 6 + static_cast<unsigned>(g.n(20)));
        shim_calls(g, calls, 6 + static_cast<unsigned>(g.n(16)), g.p(0.12));
        const unsigned T = 2 + static_cast<unsigned>(g.n(g.p(0.2) ? 15 : 5));
        const unsigned rounds = 1 + static_cast<unsigned>(g.n(3));
        std::vector<std::uint64_t> alone(calls.size());
        auto sequential = [&](std::vector<std::uint64_t> &v) {
            for (std::size_t i = 0; i < calls.size(); ++i) v[i] = calls[i]();
        };
        const bool first = g.p(0.5); // the concurrent run may come before anything has been computed
        if (first) sequential(alone);
        // each thread makes the calls in its own order, some threads concentrate on one call
        std::vector<std::vector<std::size_t>> order(T);
        std::vector<unsigned> jitter(T);
        const std::size_t hot = g.n(calls.size());
        for (unsigned t = 0; t < T; ++t) {
            const bool conc = g.p(0.25);
            for (unsigned r = 0; r < rounds; ++r) {
                for (std::size_t i = 0; i < calls.size(); ++i) order[t].push_back(conc ? hot : i);
            }
            for (std::size_t i = order[t].size(); i > 1; --i) std::swap(order[t][i - 1], order[t][g.n(i)]);
            jitter[t] = static_cast<unsigned>(g.n(4));
        }
        std::vector<std::vector<std::uint64_t>> got(T);
        std::atomic<unsigned> overlap{0}, running{0};
        std::barrier bar(T);
        std::vector<std::thread> th;
        for (unsigned t = 0; t < T; ++t) {
            th.emplace_back([&, t] {
                auto &v = got[t];
                v.reserve(order[t].size());
                bar.arrive_and_wait();
                for (std::size_t k = 0; k < order[t].size(); ++k) {
                    if (running.fetch_add(1, std::memory_order_relaxed) > 0) overlap.fetch_add(1, std::memory_order_relaxed);
                    v.push_back(calls[order[t][k]]());
                    running.fetch_sub(1, std::memory_order_relaxed);
                    if (jitter[t] == 1 && k % 3 == 0) std::this_thread::yield();
                    if (jitter[t] == 2 && k % 7 == 0) std::this_thread::sleep_for(std::chrono::microseconds(20));
                }
            });
        }
        for (auto &x : th) x.join();
        if (!first) sequential(alone);
        rec.ev("calls-overlapping-another", overlap.load());
        rec.ev("threads", T);
        auto in = [&](const std::string &n) {
            return [=] { return J().t("call", n).i("threads", T).i("calls", static_cast<long long>(calls.size())).str(); };
        };
        for (unsigned t = 0; t < T; ++t) {
            for (std::size_t k = 0; k < order[t].size(); ++k) rec.require("concurrent:" + calls[order[t][k]].name, got[t][k] == alone[order[t][k]], in(calls[order[t][k]].name));
        }
        // and alone again, in another order
        for (std::size_t i = calls.size(); i-- > 0;) rec.require("repeated:" + calls[i].name, calls[i]() == alone[i], in(calls[i].name));
        std::uint64_t h = T;
        for (auto x : alone) h = hash_bytes(&x, 8, h);
        rec.nontriv(h);
        rec.sample([&] {
            std::string s;
            for (auto &c : calls) s += c.name + " ";
            return J().i("threads", T).t("calls", s).str();
        });
    });
}
