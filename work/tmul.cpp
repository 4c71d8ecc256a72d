// C02: truncated multiplication, total and partial degree, compared with the truncated reference convolution.
// PARTS 5
#include "common.hpp"

namespace
{
template <class C>
std::pair<long, long> degree_span(const model<C> &m, const std::set<std::string> *sel)
{
    long lo = 0, hi = 0;
    bool first = true;
    for (auto &p : m.t) {
        auto d = sel ? m.pdegree(p.first, *sel) : m.degree(p.first);
        if (first || d < lo) lo = d;
        if (first || d > hi) hi = d;
        first = false;
    }
    return {lo, hi};
}

template <class P, class V, class Q = P>
void tmul_case(long lo, long hi)
{
    using C = obake::series_cf_t<P>;
    using D = obake::series_cf_t<Q>;
    using E = std::remove_cvref_t<decltype(std::declval<const C &>() * std::declval<const D &>())>;
    constexpr bool mixed = !std::is_same_v<P, Q>;
    const auto cfg = configure();
    cf_bs = pick_bs();
    gen_opts a, b;
    static const unsigned sz[] = {1, 4, 12, 24, 40};
    a.max_terms = sz[sim::draw(5)];
    b.max_terms = sz[sim::draw(5)];
    // Now and then, sizes well beyond the usual ones.
    const bool big = sim::chance(1, 80);
    if (big) {
        a.max_terms = 60u + static_cast<unsigned>(sim::draw(190));
        b.max_terms = 20u + static_cast<unsigned>(sim::draw(60));
        if (sim::chance(1, 2)) std::swap(a.max_terms, b.max_terms);
        cf_bs = sim::chance(1, 2) ? 16 : 1500;
        sim::probe("big_operands");
    }
    const long w = big ? hi : 1 + static_cast<long>(sim::draw(static_cast<std::uint64_t>(hi)));
    a.hi = b.hi = w;
    a.lo = b.lo = lo < 0 ? (sim::chance(1, 2) ? -w : 0) : lo;
    a.cmax = b.cmax = sim::chance(1, 2) ? 1 : 5;
    auto ss1 = gen_symbols(3), ss2 = sim::chance(2, 3) ? ss1 : gen_symbols(3);
    auto ma = gen_model<C>(ss1, a);
    auto mb = gen_model<D>(ss2, b);
    const bool same = !mixed && !big && sim::chance(1, 6);
    const auto seg1 = static_cast<unsigned>(sim::draw(4)), seg2 = static_cast<unsigned>(sim::draw(4));
    const bool partial = sim::chance(1, 2);
    std::set<std::string> sel;
    if (partial) {
        sim::harness h;
        static const char *names[] = {"a", "b", "c", "x", "y", "z", "", "unrelated"};
        auto mask = sim::draw(256);
        for (unsigned i = 0; i < 8; ++i)
            if (mask & (1u << i)) sel.insert(names[i]);
    }
    model<E> full;
    {
        sim::harness h;
        full = mmul(convert<E>(ma), same ? convert<E>(ma) : convert<E>(mb));
    }
    const unsigned rounds = big ? 1u : 1 + static_cast<unsigned>(sim::draw(3));
    const unsigned callers = !big && sim::chance(1, 4) ? 1u + static_cast<unsigned>(sim::draw(2)) : 0u;
    auto f = build<P>(ma, seg1);
    auto g = build<Q>(mb, seg2);
    const auto sels = to_ss({sel.begin(), sel.end()});
    for (unsigned round = 0; round < rounds; ++round) {
        auto [dlo, dhi] = degree_span(full, partial ? &sel : nullptr);
        long lim;
        switch (sim::draw(6)) {
            case 0: lim = dlo - 1 - static_cast<long>(sim::draw(2)); break;
            case 1: lim = dhi + static_cast<long>(sim::draw(3)); break;
            case 2: lim = static_cast<long>(sim::chance(1, 2) ? std::numeric_limits<std::int32_t>::max()
                                                              : std::numeric_limits<std::int32_t>::min()); break;
            case 3: lim = -static_cast<long>(sim::draw(4)); break;
            default: lim = sim::range(dlo, dhi);
        }
        if (std::is_unsigned_v<V> && lim < 0) lim = 0;
        model<E> want;
        {
            sim::harness h;
            want.ss = full.ss;
            for (auto &p : full.t)
                if ((partial ? full.pdegree(p.first, sel) : full.degree(p.first)) <= lim) want.t.insert(p);
        }
        if (want.t.size() < full.t.size()) sim::probe("something_cut");
        if (!want.t.empty() && want.t.size() < full.t.size()) sim::probe("strict_part_kept");
        if (lim < 0) sim::probe("negative_limit");
        const V vlim = [&]() { sim::harness h; return V(static_cast<V>(lim)); }();
        auto one = [&]() {
            auto r = [&]() {
                if constexpr (!mixed) {
                    if (same) return partial ? truncated_mul(f, f, vlim, sels) : truncated_mul(f, f, vlim);
                }
                return partial ? truncated_mul(f, g, vlim, sels) : truncated_mul(f, g, vlim);
            }();
            expect(r, want, partial ? "product truncated by partial degree" : "product truncated by degree");
            if (r.get_s_size() > 0) {
                sim::probe(partial ? "segmented_partial" : "segmented_total");
                if (want.t.size() < full.t.size()) sim::nontrivial();
            }
            mixstate({r.get_s_size(), f.size(), g.size(), cfg.workers, r.size(), partial});
        };
        for (unsigned i = 0; i < callers; ++i) sim::go("caller", one);
        one();
        sim::join_all();
        // The polynomials' own truncation gives the same terms.
        if (sim::chance(1, 3)) {
            auto r = [&]() {
                if constexpr (!mixed) {
                    if (same) return f * f;
                }
                return f * g;
            }();
            if (mixed) sim::probe("mixed_product");
            if (partial) {
                truncate_p_degree(r, vlim, sels);
            } else {
                truncate_degree(r, vlim);
            }
            expect(r, want, "truncation of the product");
        }
    }
    expect(f, ma, "left operand");
    expect(g, mb, "right operand");
}
} // namespace

#if PART == 0
SIM_WORKLOAD(tmul0, "truncated multiplication vs the truncated reference convolution")
{
    switch (sim::draw(2)) {
        case 0: return tmul_case<obake::polynomial<pm32, scf>, long>(-1, 5);
        default: return tmul_case<obake::polynomial<pm64, zint>, zint>(-1, 6);
    }
}
#elif PART == 1
SIM_WORKLOAD(tmul1, "truncated multiplication vs the truncated reference convolution")
{
    switch (sim::draw(2)) {
        case 0: return tmul_case<obake::polynomial<pm64, bcf>, int>(-1, 9);
        default: return tmul_case<obake::polynomial<dpm2, scf>, zint>(-1, 6);
    }
}
#elif PART == 2
SIM_WORKLOAD(tmul2, "truncated multiplication vs the truncated reference convolution")
{
    switch (sim::draw(2)) {
        case 0: return tmul_case<obake::polynomial<dpm8, bcf>, long>(-1, 3);
        default: return tmul_case<obake::polynomial<pmu64, scf>, unsigned>(0, 9);
    }
}
#elif PART == 4
// Different coefficients: integers modulo 2**64 in two representations, and with integers modulo 16 (products may be zero).
SIM_WORKLOAD(tmul4, "truncated multiplication of polynomials with different coefficient types")
{
    switch (sim::draw(3)) {
        case 0: return tmul_case<obake::polynomial<pm64, scf>, int, obake::polynomial<pm64, bcf>>(-1, 6);
        case 1: return tmul_case<obake::polynomial<dpm2, bcf>, zint, obake::polynomial<dpm2, scf>>(-1, 5);
        default: return tmul_case<obake::polynomial<pm64, nib>, long, obake::polynomial<pm64, scf>>(-1, 5);
    }
}
#else
SIM_WORKLOAD(tmul3, "truncated multiplication vs the truncated reference convolution")
{
    switch (sim::draw(2)) {
        case 0: return tmul_case<obake::polynomial<dpm1, scf>, zint>(-1, 4);
        default: return tmul_case<obake::polynomial<pm32, bcf>, zint>(-1, 4);
    }
}
#endif
