// C17: hardware concurrency.
#include <obake/detail/hc.hpp>

#include <sim.hpp>

namespace
{
constexpr int MAXREP = 512;
unsigned reported[MAXREP]; // what the platform has told anyone so far
int nrep;
unsigned script[16];
unsigned calls;
unsigned platform()
{
    // The platform may be slow: others run meanwhile.
    sim::yield();
    sim::harness h;
    const unsigned v = script[calls++ % 16u];
    if (nrep < MAXREP) reported[nrep++] = v;
    if (v == 0) sim::note_fault(sim::f_hc);
    return v;
}
} // namespace

SIM_WORKLOAD(hc, "threads ask for the hardware concurrency while the platform's answer changes or is unavailable")
{
    static const unsigned vals[] = {0, 1, 2, 3, 4, 8, 64, 255, 256, 65536, 0x7fffffffu, 0xffffffffu};
    const bool constant = sim::chance(1, 4);
    for (auto &s : script) s = vals[sim::draw(12)];
    if (constant)
        for (auto &s : script) s = script[0];
    sim::set_hw_concurrency_fn(platform);
    const unsigned nthr = static_cast<unsigned>(sim::draw(5));
    const unsigned ncalls = 1u + static_cast<unsigned>(sim::draw(4));
    auto body = [ncalls]() {
        unsigned first = 0;
        for (unsigned i = 0; i < ncalls; ++i) {
            const unsigned v = obake::detail::hc();
            sim::harness h;
            sim::check(v != 0u, "zero", "hc() is zero");
            if (i == 0) {
                first = v;
                // It must be something the platform has said by now, to this
                // thread or (were the answer kept for the whole process) to
                // another; zero meaning 1.
                bool ok = false;
                for (int k = 0; k < nrep; ++k) ok = ok || v == reported[k] || (v == 1u && reported[k] == 0u);
                sim::check(ok, "not-reported", "hc() is " + std::to_string(v) + ", which the platform has not reported");
            } else {
                sim::check(v == first, "unstable", "hc() changed from " + std::to_string(first) + " to " + std::to_string(v));
            }
        }
    };
    for (unsigned i = 0; i < nthr; ++i) sim::go("asker", body);
    body();
    sim::join_all();
    // Asked again later, in the same thread.
    body();
    if (nthr) sim::nontrivial();
    sim::note_state(nthr * 100 + ncalls * 10 + constant);
}
