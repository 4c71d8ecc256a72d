// C08: flag arrays and lock guards.
#include <atomic>
#include <cstddef>
#include <memory>
#include <new>
#include <stdexcept>
#include <vector>

#include <obake/detail/atomic_flag_array.hpp>
#include <obake/detail/atomic_lock_guard.hpp>

#include <sim.hpp>

using obake::detail::atomic_flag_array;
using obake::detail::atomic_lock_guard;

namespace
{
struct left_by_exception {
};
// Plain (non-atomic) data guarded by flag i.
struct guarded {
    unsigned long a = 0, b = 0;
    int inside = 0;
};
} // namespace

SIM_WORKLOAD(flags, "threads lock the flags of a flag array")
{
    // Small sizes, powers of two and their neighbours, sizes beyond a byte, a page and 2**16.
    static const std::size_t sizes[] = {1, 2, 3, 5, 8, 16, 64, 257};
    std::size_t n = sizes[sim::draw(8)];
    if (sim::chance(1, 3)) {
        const std::size_t p = std::size_t(1) << (1 + sim::draw(sim::chance(1, 8) ? 16 : 11));
        n = p - 1u + sim::draw(3);
        if (sim::chance(1, 3)) n = 1 + sim::draw(p);
    }
    const unsigned nthr = 1u + static_cast<unsigned>(sim::draw(4));
    const unsigned hot = 1u + static_cast<unsigned>(sim::draw(n < 4 ? n : 4)); // flags in use
    // Recycle dirty memory: what the buffer holds before must not matter.
    {
        std::vector<std::unique_ptr<unsigned char[]>> dirty;
        for (unsigned i = 0; i < 3; ++i) {
            dirty.emplace_back(new unsigned char[n]);
            for (std::size_t k = 0; k < n; ++k) dirty.back()[k] = static_cast<unsigned char>(0xff);
        }
    }
    {
        atomic_flag_array fa(n);
        const auto &cfa = fa;
        for (std::size_t i = 0; i < n; ++i) {
            sim::check(&cfa[i] == &fa[i], "accessors", "the const and the mutable accessor disagree");
            sim::check(!fa[i].test_and_set(), "not-clear", "a fresh flag is set");
            fa[i].clear();
        }
        // Distinct flags: setting one does not set any other.
        for (std::size_t i = 0; i < n && i < 8; ++i) {
            const std::size_t j = (i * 31u) % n;
            fa[j].test_and_set();
            for (std::size_t k = 0; k < n; ++k) {
                sim::check(fa[k].test() == (k == j), "aliased", "setting a flag changed another one");
            }
            fa[j].clear();
        }
        std::vector<guarded> data(n);
        std::vector<unsigned long> want(n, 0ul);
        std::atomic<unsigned> returned{0};
        // Pick which flags are hot: the first, the last, neighbours.
        std::vector<std::size_t> idx;
        for (unsigned i = 0; i < hot; ++i) idx.push_back(sim::chance(1, 2) ? i : n - 1u - i);
        struct step {
            std::size_t flag;
            std::size_t second;
            bool nested, thrown;
        };
        std::vector<std::vector<step>> plan(nthr);
        for (auto &p : plan) {
            const auto k = 1 + sim::draw(6);
            for (std::uint64_t i = 0; i < k; ++i) {
                step s{idx[sim::draw(hot)], idx[sim::draw(hot)], sim::chance(1, 4), sim::chance(1, 4)};
                if (s.second <= s.flag) s.nested = false; // ordered, so the harness itself cannot deadlock
                ++want[s.flag];
                if (s.nested) ++want[s.second];
                p.push_back(s);
            }
        }
        auto section = [&](std::size_t f) {
            auto &d = data[f];
            sim::check(d.inside == 0, "not-exclusive", "two threads are inside sections guarded by the same flag");
            d.inside = 1;
            const auto a = d.a;
            sim::yield();
            d.a = a + 1;
            sim::check(d.inside == 1, "not-exclusive", "two threads are inside sections guarded by the same flag");
            d.b = d.a * 3;
            sim::check(d.a == a + 1, "not-exclusive", "an update was lost");
            d.inside = 0;
        };
        for (unsigned t = 0; t < nthr; ++t) {
            sim::go("locker", [&, t]() {
                for (const auto &s : plan[t]) {
                    try {
                        atomic_lock_guard lg(fa[s.flag]);
                        sim::check(fa[s.flag].test(), "not-held", "the flag is clear while a guard exists");
                        section(s.flag);
                        if (s.nested) {
                            atomic_lock_guard lg2(fa[s.second]);
                            section(s.second);
                            if (s.thrown) throw left_by_exception{};
                        } else if (s.thrown) {
                            throw left_by_exception{};
                        }
                    } catch (const left_by_exception &) {
                        sim::probe("left_by_exception");
                    }
                    returned.fetch_add(1);
                }
            });
        }
        sim::join_all();
        for (std::size_t i = 0; i < n; ++i) {
            sim::check(!fa[i].test(), "not-released", "a flag is still set although every guard is gone");
            sim::check(data[i].a == want[i], "lost-update", "an update made under a guard was lost");
        }
        // Independence: while one flag is held, sections on another one go on.
        if (n > 1) {
            const std::size_t x = sim::draw(n), y = (x + 1 + sim::draw(n - 1)) % n;
            std::atomic<bool> done{false};
            sim::go("holder", [&]() {
                atomic_lock_guard lg(fa[x]);
                while (!done.load()) sim::yield();
            });
            sim::go("other", [&]() {
                {
                    atomic_lock_guard lg(fa[y]);
                    section(y);
                }
                done.store(true);
            });
            sim::join_all();
            sim::check(!fa[x].test() && !fa[y].test(), "not-released", "a flag is still set although every guard is gone");
        }
        if (nthr > 1) sim::nontrivial();
        sim::note_state(n * 100 + nthr * 10 + hot);
    }
    // Failing creation.
    if (sim::chance(1, 2)) {
        const auto b0 = sim::live_blocks();
        bool thrown = false;
        const auto fail = sim::chance(1, 2);
        const std::size_t m = fail ? n : (sim::chance(1, 2) ? static_cast<std::size_t>(-1) - sim::draw(3) : (static_cast<std::size_t>(1) << 62));
        sim::arm_nth(sim::f_alloc, fail ? 1 : 0);
        try {
            atomic_flag_array fa(m);
        } catch (const std::bad_alloc &) {
            thrown = true;
        } catch (const std::exception &e) {
            sim::violation("wrong-exception", std::string("creation failed with something else: ") + e.what());
        }
        sim::disarm(sim::f_alloc);
        sim::check(thrown, "no-exception", "the creation of an array that does not fit in memory succeeded");
        sim::check(sim::live_blocks() == b0, "leak", "a failed creation leaks");
        sim::probe("failed_creation");
        atomic_flag_array fb(n);
        for (std::size_t i = 0; i < n; ++i) sim::check(!fb[i].test(), "not-clear", "a fresh flag is set");
    }
}

// A guard over one flag: fairness-free progress, publication through a chain of threads.
SIM_WORKLOAD(spin, "a chain of threads hands data over through one lock guard")
{
    const unsigned nthr = 2u + static_cast<unsigned>(sim::draw(4));
    // One run in six has a holder that is stalled inside its section while the others keep trying.
    const unsigned stalled = sim::chance(1, 6) ? static_cast<unsigned>(sim::draw(nthr)) : nthr;
    const unsigned long long stall = 1ull << sim::draw(20);
    std::atomic_flag f = ATOMIC_FLAG_INIT;
    std::vector<unsigned> log; // guarded by f
    unsigned next = 0;         // guarded by f
    for (unsigned t = 0; t < nthr; ++t) {
        sim::go("chain", [&, t]() {
            for (;;) {
                {
                    atomic_lock_guard lg(f);
                    if (next == t) {
                        log.push_back(t);
                        if (t == stalled) {
                            const auto t0 = sim::now();
                            while (sim::now() - t0 < stall) sim::yield();
                            sim::probe("stalled_holder");
                        }
                        sim::check(next == t, "not-exclusive", "two threads are inside sections guarded by the same flag");
                        ++next;
                        return;
                    }
                }
                sim::yield();
            }
        });
    }
    sim::join_all();
    sim::check(log.size() == nthr, "lost-update", "an update made under a guard was lost");
    for (unsigned t = 0; t < nthr; ++t) sim::check(log[t] == t, "order", "the handover happened in the wrong order");
    sim::check(!f.test(), "not-released", "the flag is still set");
    sim::nontrivial();
    sim::note_state(nthr);
}
