// C11: failures inside parallel operations.
// PARTS 7
// RELEASE 3 4 5 6
#include <tbb/parallel_for.h>

#include <obake/polynomials/monomial_range_overflow_check.hpp>

#include "ops.hpp"

namespace
{
// Coefficient and key operations so far.
std::uint64_t work_done()
{
    return sim::sites(sim::f_cf_throw) + sim::sites(sim::f_key_throw);
}
template <class P>
struct par_case_t {
    using C = obake::series_cf_t<P>;
    using K = obake::series_key_t<P>;
    std::unique_ptr<P> f, g;
    model<C> mf, mg, want[3], mt;
    std::int64_t lim = 0;
    obake::symbol_set sels;
    // NOTE: tkey has no overflow check.
    using RK = std::conditional_t<std::is_same_v<K, tkey>, pm64, K>;
    std::vector<RK> keys;
    obake::symbol_set kss;
    std::uint64_t bs = 0;
    trunc_spec t;

    void gen()
    {
        gen_opts a, b;
        static const unsigned sz[] = {2, 8, 16, 28};
        a.max_terms = sz[sim::draw(4)];
        b.max_terms = sz[sim::draw(4)];
        a.lo = b.lo = exp_lo<P>(sim::chance(1, 3));
        a.hi = b.hi = 1 + static_cast<long>(sim::draw(6));
        const auto ss1 = gen_symbols(3), ss2 = sim::chance(3, 4) ? ss1 : gen_symbols(3);
        mf = gen_model<C>(ss1, a);
        mg = gen_model<C>(ss2, b);
        if (is_ps<P>) t = gen_trunc();
        {
            sim::harness h;
            if (is_ps<P>) {
                model_trunc(mf, t);
                model_trunc(mg, t);
            }
        }
        f = std::make_unique<P>(build<P>(mf, static_cast<unsigned>(sim::draw(6))));
        g = std::make_unique<P>(build<P>(mg, static_cast<unsigned>(sim::draw(4))));
        apply_trunc(*f, t);
        apply_trunc(*g, t);
        const std::set<std::string> sel = [&]() {
            sim::harness h;
            static const char *names[] = {"a", "b", "c", "x", "y", "z", "unrelated"};
            std::set<std::string> s;
            const auto mask = sim::draw(128);
            for (unsigned i = 0; i < 7; ++i)
                if (mask & (1u << i)) s.insert(names[i]);
            return s;
        }();
        sels = to_ss({sel.begin(), sel.end()});
        sim::harness h;
        auto full = mmul(mf, mg);
        if (is_ps<P>) model_trunc(full, t);
        lim = sim::range(-1, 9);
        want[0] = full;
        want[1].ss = want[2].ss = full.ss;
        for (const auto &x : full.t) {
            if (full.degree(x.first) <= lim) want[1].t.insert(x);
            if (full.pdegree(x.first, sel) <= lim) want[2].t.insert(x);
        }
        bs = obake::byte_size(*f);
        // A range with enough monomials for the parallel check.
        if (sim::chance(1, 6)) {
            kss = obake::symbol_set{"a", "b"};
            for (long i = 0; i < 5003; ++i) keys.push_back(make_key<RK>({i % 70, i / 70}));
        }
    }
    unsigned pick()
    {
        if (!keys.empty() && sim::chance(1, 3)) return 4;
        // NOTE: the products are what matters most.
        const auto r = static_cast<unsigned>(sim::draw(8));
        if (is_ps<P>) return r < 6 ? 0 : 3;
        return r < 3 ? 0 : r < 5 ? 1 : r < 7 ? 2 : 3;
    }
    static const char *name(unsigned op)
    {
        static const char *n[] = {"product", "product truncated by degree", "product truncated by partial degree", "byte size", "overflow check"};
        return n[op];
    }
    void run(unsigned op, bool &segmented)
    {
        if (op == 3) {
            const auto got = obake::byte_size(*f);
            sim::check(got == bs, "wrong-result", "the byte size is wrong");
            segmented = f->get_s_size() > 0;
            return;
        }
        if (op == 4) {
            sim::check(obake::monomial_range_overflow_check(keys, keys, kss), "wrong-result", "an overflow is reported");
            segmented = true;
            return;
        }
        P r = [&]() {
            if constexpr (is_ps<P>) {
                return *f * *g;
            } else {
                return op == 0 ? *f * *g : op == 1 ? truncated_mul(*f, *g, lim) : truncated_mul(*f, *g, lim, sels);
            }
        }();
        expect(r, want[op], name(op));
        segmented = r.get_s_size() > 0;
    }
};

template <class P>
void par_case()
{
    configure();
    const auto w = 1 + static_cast<unsigned>(sim::draw(6));
    sim::set_workers(w);
    sim::set_hw_concurrency(4 + static_cast<unsigned>(sim::draw(13)));
    static const std::uint64_t bss[] = {30000, 60000, 200000, 800000};
    cf_bs = bss[sim::draw(4)];
    using W = par_case_t<P>;
    std::unique_ptr<W> c;
    {
        sim::harness h;
        c = std::make_unique<W>();
    }
    c->gen();
    const auto df = dump(*c->f, "left operand"), dg = dump(*c->g, "right operand");
    static const sim::fault_kind kinds[] = {sim::f_alloc, sim::f_cf_throw, sim::f_key_throw};
    const unsigned nk = std::is_same_v<obake::series_key_t<P>, tkey> ? 3 : 2;
    auto one_round = [&](unsigned op, bool again) {
        // The sites the operation passes when nothing fails.
        bool seg = false;
        std::uint64_t base[3], n[3] = {0, 0, 0};
        for (unsigned i = 0; i < nk; ++i) base[i] = sim::sites(kinds[i]), sim::arm_count(kinds[i]);
        const auto ref = outcome([&]() {
            c->run(op, seg);
            return std::string();
        });
        for (unsigned i = 0; i < nk; ++i) sim::disarm(kinds[i]), n[i] = sim::sites(kinds[i]) - base[i];
        {
            sim::harness h;
            if (ref != "ok:") sim::violation("wrong-outcome", std::string(W::name(op)) + " ended with " + ref);
        }
        // One kind of failure, sometimes several; once or again and again.
        std::uint64_t f0[3];
        const auto first = sim::draw(nk);
        const bool several = sim::chance(1, 4);
        for (unsigned i = 0; i < nk; ++i) {
            f0[i] = sim::fired(kinds[i]);
            if ((i != first && !several) || !n[i]) {
                sim::arm_count(kinds[i]);
            } else if (sim::chance(2, 3)) {
                sim::arm_nth(kinds[i], 1 + sim::draw(n[i]));
            } else {
                sim::arm_prob(kinds[i], 1 + sim::draw(n[i]));
            }
        }
        const auto got = outcome([&]() {
            c->run(op, seg);
            return std::string();
        });
        // When the caller has its exception nothing is at work any more.
        const auto w0 = work_done();
        const auto a0 = sim::alloc_count();
        const bool destroy = got != "ok:" && !again && sim::chance(1, 3);
        if (destroy) {
            // The operands are not used any more.
            c->f.reset();
            c->g.reset();
        }
        const unsigned ny = static_cast<unsigned>(sim::draw(30));
        for (unsigned i = 0; i < ny; ++i) sim::yield();
        const auto w1 = work_done();
        if (got != "ok:") {
            sim::check(w0 == w1, "still-running", "a task worked on after the exception had reached the caller");
            if (!destroy) sim::check(a0 == sim::alloc_count(), "still-running", "a task allocated after the exception had reached the caller");
        }
        for (unsigned i = 0; i < nk; ++i) sim::disarm(kinds[i]);
        bool hit = false, ok = got == "ok:";
        for (unsigned i = 0; i < nk; ++i) {
            if (sim::fired(kinds[i]) == f0[i]) continue;
            hit = true;
            sim::harness h;
            if (got == fault_outcome(kinds[i])) ok = true;
        }
        {
            sim::harness h;
            if (!ok) sim::violation("wrong-outcome", std::string(W::name(op)) + " ended with " + got + (hit ? ", which was not injected" : ", nothing was injected"));
        }
        if (hit && got != "ok:") {
            sim::probe("failed");
            sim::probe(W::name(op));
            if (seg) {
                sim::probe("failed_in_parallel");
                sim::nontrivial();
            }
        }
        if (hit && got == "ok:") sim::probe("fault_absorbed");
        mixstate({op, n[0] / 16, n[1] / 16, w, static_cast<std::uint64_t>(hit), c->mf.t.size(), c->mg.t.size()});
        return !destroy;
    };
    const unsigned rounds = 1 + static_cast<unsigned>(sim::draw(3));
    bool alive = true;
    for (unsigned i = 0; i < rounds && alive; ++i) {
        const auto op = c->pick();
        alive = one_round(op, i + 1u < rounds);
        if (!alive) break;
        const auto ef = dump(*c->f, "left operand"), eg = dump(*c->g, "right operand");
        {
            sim::harness h;
            if (ef != df || eg != dg) sim::violation("operand-changed", "a failed operation changed an operand");
        }
        bool seg = false;
        const auto got = outcome([&]() {
            c->run(op, seg);
            return std::string();
        });
        sim::harness h;
        if (got != "ok:") sim::violation("wrong-outcome", std::string("the retry of a ") + W::name(op) + " ended with " + got);
    }
    if (alive && sim::chance(1, 3)) {
        // Several callers at once, any of which may fail; nobody else is affected but by its own failure.
        const auto k = kinds[sim::draw(nk)];
        const auto op = c->pick();
        const unsigned nt = 1 + static_cast<unsigned>(sim::draw(2));
        const auto f0 = sim::fired(k);
        sim::arm_prob(k, 50 + sim::draw(1500));
        auto body = [&]() {
            for (unsigned i = 0; i < 3; ++i) {
                bool seg = false;
                const auto got = outcome([&]() {
                    c->run(op, seg);
                    return std::string();
                });
                sim::harness h;
                if (got != "ok:" && (got != fault_outcome(k) || sim::fired(k) == f0)) sim::violation("wrong-outcome", std::string(W::name(op)) + " ended with " + got);
                if (got != "ok:") sim::probe("one_caller_failed");
            }
        };
        for (unsigned i = 0; i < nt; ++i) sim::go("caller", body);
        body();
        sim::join_all();
        sim::disarm(k);
        bool seg = false;
        c->run(op, seg);
        const auto ef = dump(*c->f, "left operand"), eg = dump(*c->g, "right operand");
        sim::harness h;
        if (ef != df || eg != dg) sim::violation("operand-changed", "a failed operation changed an operand");
    }
    // NOTE: destroys the operands under the simulation.
    c->f.reset();
    c->g.reset();
    c->sels.clear();
    sim::harness h;
    c.reset();
}
} // namespace

#if PART == 0
SIM_WORKLOAD(par0, "failures in parallel operations")
{
    par_case<obake::polynomial<pm64, bcf>>();
}
#elif PART == 1
SIM_WORKLOAD(par1, "failures in parallel operations")
{
    par_case<obake::polynomial<tkey, scf>>();
}
#elif PART == 2
SIM_WORKLOAD(par2, "failures in parallel operations")
{
    par_case<obake::p_series<dpm2, bcf>>();
}
#elif PART == 3
SIM_WORKLOAD(par3, "failures in parallel operations (no assertions)")
{
    par_case<obake::polynomial<dpm2, bcf>>();
}
#elif PART == 4
SIM_WORKLOAD(par4, "failures in parallel operations (no assertions)")
{
    par_case<obake::polynomial<tkey, bcf>>();
}
#elif PART == 5
SIM_WORKLOAD(par5, "failures in parallel operations (no assertions)")
{
    par_case<obake::p_series<pm64, scf>>();
}
#else
SIM_WORKLOAD(par6, "failures in parallel operations (no assertions)")
{
    par_case<obake::polynomial<pm64, scf>>();
}
#endif
