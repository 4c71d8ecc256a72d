// C01: parallel and sequential multiplication, compared with a reference convolution.
// PARTS 4
#include "common.hpp"

namespace
{
template <class P, class Q = P>
void mul_case(long lo, long hi)
{
    using C = obake::series_cf_t<P>;
    using D = obake::series_cf_t<Q>;
    using E = std::remove_cvref_t<decltype(std::declval<const C &>() * std::declval<const D &>())>;
    constexpr bool mixed = !std::is_same_v<P, Q>;
    const auto cfg = configure();
    cf_bs = pick_bs();
    // Vary shapes: balanced, rectangular, single terms.
    gen_opts a, b;
    static const unsigned sz[] = {1, 4, 12, 24, 48};
    a.max_terms = sz[sim::draw(5)];
    b.max_terms = sz[sim::draw(5)];
    // Now and then, sizes well beyond the usual ones.
    const bool big = sim::chance(1, 80);
    if (big) {
        a.max_terms = 60u + static_cast<unsigned>(sim::draw(190));
        b.max_terms = 20u + static_cast<unsigned>(sim::draw(60));
        if (sim::chance(1, 2)) std::swap(a.max_terms, b.max_terms);
        cf_bs = sim::chance(1, 2) ? 16 : 1500;
        sim::probe("big_operands");
    }
    a.lo = b.lo = lo;
    const long w = big ? hi : 1 + static_cast<long>(sim::draw(static_cast<std::uint64_t>(hi)));
    a.hi = b.hi = w;
    if (lo < 0) a.lo = b.lo = -w;
    a.cmax = b.cmax = sim::chance(1, 2) ? 1 : 5;
    auto ss1 = gen_symbols(3), ss2 = sim::chance(2, 3) ? ss1 : gen_symbols(3);
    auto ma = gen_model<C>(ss1, a);
    auto mb = gen_model<D>(ss2, b);
    const bool same = !mixed && !big && sim::chance(1, 6);
    const auto seg1 = static_cast<unsigned>(sim::draw(4)), seg2 = static_cast<unsigned>(sim::draw(4));
    const unsigned callers = !big && sim::chance(1, 4) ? 1u + static_cast<unsigned>(sim::draw(2)) : 0u;
    {
        auto f = build<P>(ma, seg1);
        auto g = build<Q>(mb, seg2);
        model<E> want;
        {
            sim::harness h;
            want = same ? mmul(convert<E>(ma), convert<E>(ma)) : mmul(convert<E>(ma), convert<E>(mb));
        }
        auto one = [&]() {
            auto r = [&]() {
                if constexpr (!mixed) {
                    if (same) return f * f;
                }
                return f * g;
            }();
            if (mixed && !want.t.empty()) sim::probe("mixed_product");
            expect(r, want, "product");
            if (r.get_s_size() > 0) {
                sim::probe("segmented_result");
                sim::nontrivial();
            }
            sim::probe("products");
            mixstate({r.get_s_size(), f.size(), g.size(), cfg.workers, r.size()});
        };
        for (unsigned i = 0; i < callers; ++i) {
            sim::spawn("caller", one);
        }
        one();
        sim::join_all();
        expect(f, ma, "left operand");
        expect(g, mb, "right operand");
        // The other order, and the rvalue form.
        if (sim::chance(1, 3)) {
            auto r2 = Q(g) * P(f);
            model<E> w2;
            {
                sim::harness h;
                w2 = mmul(convert<E>(mb), convert<E>(ma));
            }
            expect(r2, w2, "product of rvalues");
        }
    }
    sim::check(sim::live_blocks() < 100000, "leak", "runaway memory");
}
} // namespace

#if PART == 0
SIM_WORKLOAD(mul0, "multiplication of two polynomials vs the reference convolution")
{
    switch (sim::draw(3)) {
        case 0: return mul_case<obake::polynomial<pm32, scf>>(-1, 5);
        case 1: return mul_case<obake::polynomial<dpm1, scf>>(-1, 4);
        default: return mul_case<obake::polynomial<pm64, zint>>(-1, 6);
    }
}
#elif PART == 1
SIM_WORKLOAD(mul1, "multiplication of two polynomials vs the reference convolution")
{
    switch (sim::draw(2)) {
        case 0: return mul_case<obake::polynomial<pm64, bcf>>(-1, 9);
        default: return mul_case<obake::polynomial<dpm2, scf>>(-1, 6);
    }
}
#elif PART == 3
// Different coefficients: integers modulo 2**64 in two representations, and with integers modulo 16 (products may be zero).
SIM_WORKLOAD(mul3, "multiplication of polynomials with different coefficient types")
{
    switch (sim::draw(3)) {
        case 0: return mul_case<obake::polynomial<pm64, scf>, obake::polynomial<pm64, bcf>>(-1, 6);
        case 1: return mul_case<obake::polynomial<dpm2, bcf>, obake::polynomial<dpm2, scf>>(-1, 5);
        default: return mul_case<obake::polynomial<pm64, nib>, obake::polynomial<pm64, scf>>(-1, 5);
    }
}
#else
SIM_WORKLOAD(mul2, "multiplication of two polynomials vs the reference convolution")
{
    switch (sim::draw(2)) {
        case 0: return mul_case<obake::polynomial<dpm8, bcf>>(-1, 3);
        default: return mul_case<obake::polynomial<pmu64, scf>>(0, 9);
    }
}
#endif
