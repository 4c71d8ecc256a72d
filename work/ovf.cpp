// C21: exponents at the limits of the monomial types, sequential and parallel checks.
// PARTS 5
// RELEASE 4
#include <list>

#include <obake/polynomials/monomial_range_overflow_check.hpp>

#include "ops.hpp"

namespace
{
using dpu1 = obake::d_packed_monomial<std::uint32_t, 1>;
using dps1 = obake::d_packed_monomial<std::int32_t, 1>;
using dpul1 = obake::d_packed_monomial<std::uint64_t, 1>;

using wide = __int128;
// The range of a component in a pack of n values, found by trying.
template <class T>
std::pair<wide, wide> limits_of(unsigned n)
{
    static std::map<unsigned, std::pair<wide, wide>> cache;
    sim::harness h;
    const auto it = cache.find(n);
    if (it != cache.end()) return it->second;
    auto ok = [n](wide v) {
        try {
            obake::kpacker<T> k(n);
            k << static_cast<T>(v);
            return true;
        } catch (const std::exception &) {
            return false;
        }
    };
    wide mx = 0, hi = static_cast<wide>(std::numeric_limits<T>::max()) + 1;
    while (hi - mx > 1) {
        const wide mid = (mx + hi) / 2;
        (ok(mid) ? mx : hi) = mid;
    }
    wide mn = 0, lo = static_cast<wide>(std::numeric_limits<T>::min()) - 1;
    while (mn - lo > 1) {
        const wide mid = (mn + lo) / 2;
        (ok(mid) ? mn : lo) = mid;
    }
    return cache.emplace(n, std::pair(mn, mx)).first->second;
}
template <class K>
struct is_dpm : std::false_type {
};
template <class T, unsigned P>
struct is_dpm<obake::d_packed_monomial<T, P>> : std::true_type {
};
using key_v = std::vector<wide>;
template <class K>
struct limits {
    using T = typename keyio<K>::T_;
    wide lo, hi, dlo, dhi;
    explicit limits(unsigned n)
    {
        const auto p = limits_of<T>(keyio<K>::group(n));
        lo = p.first;
        hi = p.second;
        dlo = std::numeric_limits<T>::min();
        dhi = std::numeric_limits<T>::max();
    }
    bool fits(const key_v &k) const
    {
        wide d = 0;
        for (auto x : k) {
            if (x < lo || x > hi) return false;
            d += x;
        }
        return !is_dpm<K>::value || (d >= dlo && d <= dhi);
    }
};
struct two {
    std::vector<key_v> a, b;
    bool fits = true, differ_degree = false;
};
// Two sets of exponent vectors whose extreme sums are at, just below or just beyond a limit.
// (dups: a vector may be there several times.)
template <class K>
two gen_two(unsigned n, std::size_t na, std::size_t nb, bool dups)
{
    sim::harness h;
    using T = typename keyio<K>::T_;
    const limits<K> L(n);
    two r;
    const bool big = sim::chance(1, 2);
    // All parts of the sets alike but for a few vectors.
    const bool flat = dups && sim::chance(1, 2);
    auto fill = [&](std::vector<key_v> &v, std::size_t m) {
        for (std::size_t i = 0; i < m; ++i) {
            key_v k(n, 0);
            auto x = i;
            for (unsigned j = 0; j < n; ++j) {
                // NOTE: distinct vectors, whatever the count.
                const auto base = flat ? 2u : (j + 1u == n ? m : std::size_t(3 + 2 * n));
                wide e = static_cast<wide>(x % base);
                x /= base;
                if (std::is_signed_v<T> && big) e = (i & 1u) ? -e : e;
                if (e > L.hi / 4) e = L.hi / 4;
                if (e < L.lo / 4) e = L.lo / 4;
                k[j] = e;
            }
            v.push_back(k);
        }
    };
    fill(r.a, na);
    fill(r.b, nb);
    auto pos = [](std::size_t m) -> std::size_t {
        switch (sim::draw(3)) {
            case 0: return 0;
            case 1: return m - 1;
            default: return sim::draw(m);
        }
    };
    const unsigned shots = 1 + static_cast<unsigned>(sim::draw(2));
    for (unsigned s = 0; s < shots; ++s) {
        const auto ia = pos(na), ib = pos(nb);
        const auto j = sim::draw(n);
        const long delta = sim::range(-2, 2);
        if (is_dpm<K>::value && keyio<K>::group(n) == 1u && n >= 3u && sim::chance(1, 2)) {
            // The components fit, the degree is at its limit.
            const bool up = !std::is_signed_v<T> || sim::chance(1, 2);
            wide want = (up ? L.dhi : L.dlo) + delta;
            auto &ka = r.a[ia], &kb = r.b[ib];
            for (auto &x : ka) x = 0;
            for (auto &x : kb) x = 0;
            for (unsigned q = 0; q < n; ++q) {
                const auto jj = (j + q) % n;
                const wide take = up ? std::min(want, L.hi) : std::max(want, L.lo);
                const wide half = take / static_cast<wide>(1 + sim::draw(3));
                ka[jj] = half;
                kb[jj] = take - half;
                want -= take;
            }
            sim::probe("degree_limit");
            if (dups && sim::chance(1, 2)) {
                // The same components elsewhere, one in a vector: only the sum tells.
                const auto fa = ka, fb = kb;
                const auto every = 1u + sim::draw(3);
                auto spread = [&](std::vector<key_v> &v, const key_v &from, std::size_t not_here) {
                    for (std::size_t i = 0; i < v.size(); i += every)
                        if (i != not_here) v[i][(i / every) % n] = from[(i / every) % n];
                };
                spread(r.a, fa, ia);
                spread(r.b, fb, ib);
                sim::probe("degree_limit_only");
            }
        } else {
            const bool up = !std::is_signed_v<T> || sim::chance(1, 2);
            const wide lim = up ? L.hi : L.lo;
            // How the limit is shared by the two.
            wide x = 0;
            switch (sim::draw(4)) {
                case 0: x = lim; break;
                case 1: x = lim / 2; break;
                case 2: x = lim - (up ? 1 : -1) * static_cast<wide>(sim::draw(10)); break;
                default: x = lim / static_cast<wide>(1 + sim::draw(7));
            }
            wide y = lim + (up ? delta : -delta) - x;
            y = std::min(std::max(y, L.lo), L.hi);
            const bool swp = sim::chance(1, 2);
            r.a[ia][j] = swp ? y : x;
            r.b[ib][j] = swp ? x : y;
        }
    }
    // Do all the products fit? (The components and the degree are bounded separately.)
    std::vector<wide> mna(n), mxa(n), mnb(n), mxb(n);
    wide dna = 0, dxa = 0, dnb = 0, dxb = 0;
    auto span = [n](const std::vector<key_v> &v, std::vector<wide> &mn, std::vector<wide> &mx, wide &dn, wide &dx) {
        for (std::size_t i = 0; i < v.size(); ++i) {
            wide d = 0;
            for (unsigned j = 0; j < n; ++j) {
                d += v[i][j];
                mn[j] = i ? std::min(mn[j], v[i][j]) : v[i][j];
                mx[j] = i ? std::max(mx[j], v[i][j]) : v[i][j];
            }
            dn = i ? std::min(dn, d) : d;
            dx = i ? std::max(dx, d) : d;
        }
    };
    // NOTE: the keys become unique in a series: same extremes.
    span(r.a, mna, mxa, dna, dxa);
    span(r.b, mnb, mxb, dnb, dxb);
    for (unsigned j = 0; j < n; ++j)
        if (mna[j] + mnb[j] < L.lo || mxa[j] + mxb[j] > L.hi) r.fits = false;
    if (is_dpm<K>::value && (dna + dnb < L.dlo || dxa + dxb > L.dhi)) r.fits = false;
    sim::probe(r.fits ? "representable" : "overflow");
    return r;
}
template <class K>
K mk(const key_v &k)
{
    std::vector<typename keyio<K>::T_> e;
    {
        sim::harness h;
        for (auto x : k) e.push_back(static_cast<typename keyio<K>::T_>(x));
    }
    return K(e.begin(), e.end());
}
inline obake::symbol_set syms(unsigned n)
{
    static const char *names[] = {"a", "b", "c", "x", "y", "z"};
    obake::symbol_set s;
    for (unsigned i = 0; i < n; ++i) s.insert(s.end(), names[i]);
    return s;
}
// ------------------------------------------------------------------ the check itself, on ranges of any size
template <class K>
void range_case(unsigned maxn)
{
    const auto cfg = configure();
    const unsigned n = 1 + static_cast<unsigned>(sim::draw(maxn));
    const bool big = sim::chance(2, 3);
    auto size = [&](bool l) -> std::size_t {
        if (!l) return 1 + sim::draw(6);
        static const std::size_t c[] = {4999, 5000, 5001, 5002, 5300};
        return c[sim::draw(5)];
    };
    const bool la = big && sim::chance(1, 2);
    const auto na = size(la), nb = size(big && (!la || sim::chance(1, 3)));
    const auto t = gen_two<K>(n, na, nb, true);
    const auto ss = syms(n);
    std::vector<K> a, b;
    std::list<K> la_, lb_;
    {
        sim::harness h;
        for (const auto &k : t.a) a.push_back(mk<K>(k));
        for (const auto &k : t.b) b.push_back(mk<K>(k));
        if (na + nb < 100u) la_.assign(a.begin(), a.end()), lb_.assign(b.begin(), b.end());
    }
    auto one = [&]() {
        const bool got = sim::chance(1, 2) ? obake::monomial_range_overflow_check(a, b, ss) : obake::monomial_range_overflow_check(b, a, ss);
        sim::check(got == t.fits, "wrong-result", got ? "an overflow is not reported" : "an overflow is reported where every product is representable");
        // Iterators without random access: always sequential.
        if (na + nb < 100u) {
            const bool l = obake::monomial_range_overflow_check(la_, lb_, ss);
            sim::check(l == t.fits, "wrong-result", "the sequential check differs");
        }
    };
    const unsigned nt = sim::chance(1, 4) ? 1 : 0;
    for (unsigned i = 0; i < nt; ++i) sim::go("caller", one);
    one();
    sim::join_all();
    if (na > 5000u || nb > 5000u) {
        sim::probe("parallel_check");
        sim::nontrivial();
    }
    mixstate({na, nb, n, t.fits, cfg.workers});
}
// ------------------------------------------------------------------ multiplications
template <class P>
void prod_case(unsigned maxn)
{
    using K = obake::series_key_t<P>;
    using C = obake::series_cf_t<P>;
    const auto cfg = configure();
    cf_bs = pick_bs();
    const unsigned n = 1 + static_cast<unsigned>(sim::draw(maxn));
    static const std::size_t sz[] = {1, 2, 7, 20};
    std::size_t na = sz[sim::draw(4)], nb = sz[sim::draw(4)];
    // Sometimes one with enough terms for the parallel check.
    const bool big = sim::chance(1, 12);
    if (big) {
        na = 5001 + sim::draw(20);
        nb = 1 + sim::draw(2);
    }
    const auto t = gen_two<K>(n, na, nb, false);
    const auto ss = syms(n);
    auto bld = [&](const std::vector<key_v> &v, unsigned seg) {
        P p;
        p.set_symbol_set(ss);
        if (seg) p.set_n_segments(seg);
        p.reserve(v.size());
        for (const auto &k : v) {
            const auto key = mk<K>(k);
            if (p.find(key) == p.end()) p.add_term(key, lit<C>(static_cast<int>(1 + k[0] % 3 + (k[0] < 0 ? 3 : 0))));
        }
        return p;
    };
    P f = bld(t.a, static_cast<unsigned>(sim::draw(4))), g = bld(t.b, static_cast<unsigned>(sim::draw(3)));
    const auto fr = read_series(f, "left operand"), gr = read_series(g, "right operand");
    // NOTE: values as they are stored (unsigned ones may look negative).
    model<C> want;
    if (t.fits) {
        sim::harness h;
        want = mmul(fr, gr);
    }
    const bool trunc = !big && sim::chance(1, 3);
    wide lim = 0;
    using D = typename keyio<K>::T_;
    if (trunc) lim = sim::chance(1, 2) ? static_cast<wide>(std::numeric_limits<D>::max()) : sim::range(0, 6);
    const bool can_trunc = [&]() {
        // The degrees of the operands must be representable.
        for (const auto *v : {&t.a, &t.b})
            for (const auto &k : *v) {
                wide d = 0;
                for (auto x : k) d += x;
                if (d > std::numeric_limits<D>::max() || d < std::numeric_limits<D>::min()) return false;
            }
        return true;
    }();
    const bool tr = trunc && can_trunc;
    if (tr && t.fits) {
        sim::harness h;
        model<C> w;
        w.ss = want.ss;
        for (const auto &x : want.t) {
            wide d = 0;
            for (auto e : x.first) d += std::is_signed_v<D> ? static_cast<wide>(e) : static_cast<wide>(static_cast<std::uint64_t>(e));
            if (d <= lim) w.t.insert(x);
        }
        want = w;
        sim::probe("truncated");
    }
    const auto rounds = big ? 1u : 2u;
    auto one = [&]() {
        for (unsigned i = 0; i < rounds; ++i) {
            const auto how = sim::draw(2);
            P r;
            const auto got = outcome([&]() {
                if (tr) {
                    r = how ? truncated_mul(g, f, static_cast<D>(lim)) : truncated_mul(f, g, static_cast<D>(lim));
                } else {
                    r = how ? g * f : f * g;
                }
                return std::string();
            });
            if (t.fits) {
                sim::harness h;
                if (got != "ok:") sim::violation("wrong-outcome", "every product is representable but the multiplication ended with " + got);
            } else {
                sim::harness h;
                if (got != "ex:overflow") sim::violation("wrong-outcome", "some product is not representable but the multiplication ended with " + got);
            }
            if (t.fits) {
                expect(r, want, "product");
                if (r.get_s_size()) sim::probe("segmented_product");
            }
        }
    };
    const unsigned nt = sim::chance(1, 6) && !big ? 1 : 0;
    for (unsigned i = 0; i < nt; ++i) sim::go("caller", one);
    one();
    sim::join_all();
    sim::nontrivial();
    if (big) sim::probe("large_product");
    expect(f, fr, "left operand", "operand-changed");
    expect(g, gr, "right operand", "operand-changed");
    if (!tr && sim::chance(1, 2)) {
        const auto got = outcome([&]() {
            f *= g;
            return std::string();
        });
        sim::harness h;
        if (got != (t.fits ? "ok:" : "ex:overflow")) sim::violation("wrong-outcome", "f *= g ended with " + got);
        expect(f, t.fits ? want : fr, "target of f *= g", "operand-changed");
    }
    mixstate({na, nb, n, t.fits, cfg.workers, tr, cf_bs});
}
} // namespace

#if PART == 0
SIM_WORKLOAD(ovf0, "overflow checks of monomial ranges")
{
    switch (sim::draw(4)) {
        case 0: return range_case<pm32>(4);
        case 1: return range_case<pm64>(6);
        case 2: return range_case<pmu64>(4);
        default: return range_case<tkey::base>(2);
    }
}
#elif PART == 1
SIM_WORKLOAD(ovf1, "overflow checks of monomial ranges")
{
    switch (sim::draw(6)) {
        case 0: return range_case<dpm1>(5);
        case 1: return range_case<dpm2>(5);
        case 2: return range_case<dpm8>(5);
        case 3: return range_case<dpu1>(4);
        case 4: return range_case<dps1>(5);
        default: return range_case<dpul1>(4);
    }
}
#elif PART == 2
SIM_WORKLOAD(ovf2, "multiplications at the limits of the exponents")
{
    switch (sim::draw(2)) {
        case 0: return prod_case<obake::polynomial<pm64, scf>>(4);
        default: return prod_case<obake::polynomial<dps1, bcf>>(4);
    }
}
#elif PART == 3
SIM_WORKLOAD(ovf3, "multiplications at the limits of the exponents")
{
    switch (sim::draw(2)) {
        case 0: return prod_case<obake::polynomial<pm32, zint>>(4);
        default: return prod_case<obake::polynomial<dpm1, scf>>(4);
    }
}
#else
SIM_WORKLOAD(ovf4, "multiplications at the limits of the exponents (no assertions)")
{
    switch (sim::draw(3)) {
        case 0: return prod_case<obake::polynomial<dpm2, scf>>(4);
        case 1: return prod_case<obake::polynomial<dps1, scf>>(4);
        default: return prod_case<obake::polynomial<pm64, scf>>(2);
    }
}
#endif
