// C04, C05: exponentiation through the global cache, from threads and from parallel tasks.
// PARTS 5
// RELEASE 3
#include <tbb/parallel_for.h>
#include <tbb/task_group.h>

#include "ops.hpp"

namespace
{
struct user_error : std::runtime_error {
    user_error() : std::runtime_error("a task of the user fails") {}
};
template <class P>
struct pow_case_t {
    using C = obake::series_cf_t<P>;
    static constexpr unsigned maxb = 6, maxn = 4;
    struct base_t {
        P s;
        model<C> m;
        trunc_spec t;
        std::vector<model<C>> ref;
        std::string before;
    };
    base_t b[maxb];
    unsigned nb = 0;

    static P from_model(const model<C> &m, const trunc_spec &t)
    {
        P p = build<P>(m, static_cast<unsigned>(sim::draw(3)));
        apply_trunc(p, t);
        return p;
    }
    void gen()
    {
        gen_opts o;
        o.max_terms = 1 + static_cast<unsigned>(sim::draw(6));
        o.lo = exp_lo<P>(sim::chance(1, 4));
        o.hi = 3;
        nb = 2 + static_cast<unsigned>(sim::draw(maxb - 1));
        trunc_spec t0 = gen_trunc();
        auto m0 = gen_model<C>(gen_symbols(3), o);
        for (unsigned i = 0; i < nb; ++i) {
            model<C> m;
            trunc_spec t;
            {
                sim::harness h;
                m = m0;
                t = t0;
                // Look-alikes of the first one.
                switch (i == 0 ? 0 : sim::draw(7)) {
                    case 0: break;
                    case 1:
                        // Other coefficients.
                        for (auto &x : m.t) x.second = C(x.second * lit<C>(2));
                        break;
                    case 2:
                        // More symbols.
                        m = m.extended(merged(m.ss, {"c", "y"}));
                        break;
                    case 3: {
                        // Other symbols.
                        for (auto &s : m.ss) s += "1";
                        break;
                    }
                    case 4: t = gen_trunc(); break;
                    case 5:
                        if (m.t.size()) {
                            // One coefficient has another sign.
                            auto it = std::next(m.t.begin(), static_cast<long>(sim::draw(m.t.size())));
                            it->second = C(-it->second);
                        }
                        break;
                    default: m = gen_model<C>(gen_symbols(3), o);
                }
            }
            b[i].s = from_model(m, t);
            sim::harness h;
            if (!is_ps<P>) t = {};
            model_trunc(m, t);
            b[i].m = m;
            b[i].t = t;
            model<C> r;
            r.ss = m.ss;
            r.t.emplace(std::vector<long>(m.ss.size(), 0), lit<C>(1));
            for (unsigned n = 0; n <= maxn; ++n) {
                auto w = r;
                model_trunc(w, t);
                b[i].ref.push_back(w);
                r = mmul(r, m);
                if (n || m.t.size() > 1) model_trunc(r, t);
            }
            b[i].before = dump(b[i].s, "base");
        }
    }
    // Is p the n-th power of base i?
    void expect_pow(const P &p, unsigned i, unsigned n, const char *what) const
    {
        auto got = read_checked(p, what);
        sim::harness h;
        // NOTE: the zeroth power may have fewer symbols.
        const auto ss = merged(got.ss, b[i].m.ss);
        auto d = diff(got.extended(ss), b[i].ref[n].extended(ss));
        if (d.empty() && got.ss.size() > b[i].m.ss.size()) d = "there are extra symbols";
        if (d.empty() && trunc_text(p) != trunc_text(b[i].s)) d = "the truncation is " + trunc_text(p) + " instead of " + trunc_text(b[i].s);
        if (!d.empty()) sim::violation("wrong-result", std::string(what) + ": power " + std::to_string(n) + " of base " + std::to_string(i) + ": " + d);
    }
    static void clear()
    {
        obake::customisation::internal::clear_series_pow_map();
    }
    P call(unsigned i, unsigned n, unsigned how) const
    {
        switch (how) {
            case 0: return obake::pow(b[i].s, n);
            case 1: return obake::pow(b[i].s, static_cast<int>(n));
            case 2: return obake::pow(P(b[i].s), static_cast<long long>(n));
            default: return obake::pow(b[i].s, static_cast<unsigned char>(n));
        }
    }
};

template <class P>
void pow_case(bool live)
{
    using W = pow_case_t<P>;
    const auto cfg = configure(3);
    if (live) sim::set_hw_concurrency(8);
    static const std::uint64_t bss[] = {16, 30000, 200000};
    cf_bs = live ? 200000 : bss[sim::draw(3)];
    std::unique_ptr<W> w;
    {
        sim::harness h;
        w = std::make_unique<W>();
    }
    w->gen();
    struct act {
        unsigned kind, i, n, how, k, bad;
    };
    struct held {
        P s;
        unsigned i = 0, n = 0;
        bool on = false;
    };
    const unsigned nt = live ? 1 + static_cast<unsigned>(sim::draw(3)) : static_cast<unsigned>(sim::draw(4));
    std::vector<std::vector<act>> todo(nt + 1);
    std::vector<std::unique_ptr<held[]>> keep;
    const bool tasks = live || sim::chance(1, 2);
    const bool user_fails = sim::chance(1, 3);
    {
        sim::harness h;
        for (auto &v : todo) {
            const auto n = 1 + sim::draw(live ? 3 : 5);
            for (std::uint64_t x = 0; x < n; ++x) {
                act a;
                const auto r = sim::draw(8);
                a.kind = r == 7 ? 1 : (tasks && r >= (live ? 2 : 4)) ? 2 : 0;
                a.i = static_cast<unsigned>(sim::draw(w->nb));
                a.n = static_cast<unsigned>(sim::draw(W::maxn + 1));
                a.how = static_cast<unsigned>(sim::draw(4));
                a.k = 2 + static_cast<unsigned>(sim::draw(4));
                a.bad = user_fails ? static_cast<unsigned>(sim::draw(6)) : 100;
                v.push_back(a);
            }
            keep.push_back(std::make_unique<held[]>(3));
        }
    }
    W::clear();
    sim::fault_kind fk = sim::chance(2, 3) ? sim::f_alloc : sim::f_cf_throw;
    const bool faults = sim::chance(1, 2);
    const auto f0 = sim::fired(fk);
    if (faults) {
        if (sim::chance(1, 2)) {
            sim::arm_nth(fk, 1 + sim::draw(2000));
        } else {
            sim::arm_prob(fk, 20 + sim::draw(1500));
        }
    }
    auto failure = [&](const std::string &r, const char *what) {
        sim::harness h;
        if (r == fault_outcome(fk) && faults && sim::fired(fk) != f0) {
            sim::probe("failed_call");
            return;
        }
        sim::violation("wrong-outcome", std::string(what) + " ended with " + r);
    };
    auto body = [&](unsigned t) {
        unsigned slot = 0;
        for (const auto &a : todo[t]) {
            if (a.kind == 1) {
                W::clear();
                sim::probe("cleared");
            } else if (a.kind == 0) {
                auto &h = keep[t][slot++ % 3];
                if (h.on) w->expect_pow(h.s, h.i, h.n, "a result kept for a while");
                h.on = false;
                const auto r = outcome([&]() {
                    h.s = w->call(a.i, a.n, a.how);
                    return std::string();
                });
                if (r == "ok:") {
                    h.i = a.i;
                    h.n = a.n;
                    h.on = true;
                    w->expect_pow(h.s, h.i, h.n, "pow");
                } else {
                    failure(r, "pow");
                    for (;;) {
                        try {
                            h.s = P{};
                            break;
                        } catch (const std::bad_alloc &) {
                        }
                    }
                }
            } else {
                // Parallel tasks which exponentiate; one may fail.
                bool user = false;
                sim::probe("tasks_with_pow");
                const auto r = outcome([&]() {
                    try {
                        tbb::parallel_for(tbb::blocked_range<unsigned>(0, a.k), [&](const auto &range) {
                            for (auto x = range.begin(); x != range.end(); ++x) {
                                if (x == a.bad) throw user_error();
                                const unsigned i = (a.i + x) % w->nb, n = (a.n + x) % (W::maxn + 1u);
                                const P p = w->call(i, n, a.how);
                                // NOTE: a cancelled group's results are discarded.
                                if (!sim::tasks::cancelled_here()) w->expect_pow(p, i, n, "pow in a task");
                            }
                        });
                    } catch (const user_error &) {
                        user = true;
                    }
                    return std::string();
                });
                if (user) {
                    sim::probe("user_task_failed");
                } else if (r != "ok:") {
                    failure(r, "parallel tasks");
                }
            }
        }
        for (unsigned x = 0; x < 3; ++x) {
            auto &h = keep[t][x];
            if (h.on) w->expect_pow(h.s, h.i, h.n, "a result kept for a while");
        }
    };
    for (unsigned t = 1; t <= nt; ++t) sim::go("user", [&, t]() { body(t); });
    body(0);
    sim::join_all();
    sim::disarm(fk);
    if (nt) sim::nontrivial();
    // Everything still works, whatever is in the cache now.
    if (sim::chance(1, 4)) W::clear();
    for (unsigned i = 0; i < w->nb; ++i) {
        for (unsigned n = sim::chance(1, 2) ? W::maxn : 1u; n != static_cast<unsigned>(-1); --n) {
            const P p = w->call(i, n, 0);
            w->expect_pow(p, i, n, "pow in the end");
        }
        if (w->b[i].m.t.size() > 1u) {
            const auto r = outcome([&]() {
                obake::pow(w->b[i].s, -1);
                return std::string();
            });
            sim::harness h;
            sim::check(r == "ex:invalid", "wrong-outcome", "a negative power of a sum ended with " + r);
        }
        sim::harness h;
        sim::check(dump(w->b[i].s, "base") == w->b[i].before, "operand-changed", "a base changed");
    }
    mixstate({nt, w->nb, w->b[0].m.t.size(), cfg.workers, static_cast<std::uint64_t>(faults), todo[0][0].kind});
}
} // namespace

#if PART == 0
SIM_WORKLOAD(pow0, "cached exponentiation of polynomials")
{
    pow_case<obake::polynomial<pm64, scf>>(false);
}
SIM_WORKLOAD(powl0, "exponentiation in parallel tasks")
{
    pow_case<obake::polynomial<pm64, scf>>(true);
}
#elif PART == 1
SIM_WORKLOAD(pow1, "cached exponentiation of polynomials")
{
    pow_case<obake::polynomial<dpm2, bcf>>(false);
}
SIM_WORKLOAD(powl1, "exponentiation in parallel tasks")
{
    pow_case<obake::polynomial<dpm2, bcf>>(true);
}
#elif PART == 2
SIM_WORKLOAD(pow2, "cached exponentiation of power series")
{
    pow_case<obake::p_series<pm64, bcf>>(false);
}
SIM_WORKLOAD(powl2, "exponentiation in parallel tasks")
{
    pow_case<obake::p_series<pm64, bcf>>(true);
}
#elif PART == 3
SIM_WORKLOAD(pow3, "cached exponentiation of power series (no assertions)")
{
    pow_case<obake::p_series<dpm2, scf>>(false);
}
SIM_WORKLOAD(powl3, "exponentiation in parallel tasks (no assertions)")
{
    pow_case<obake::p_series<dpm2, scf>>(true);
}
#else
// Two types of series at once share the cache.
SIM_WORKLOAD(pow4, "cached exponentiation of two types at once")
{
    pow_case<obake::polynomial<pm64, qcf>>(false);
}
#endif
