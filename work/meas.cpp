// C20: degrees, sizes and per-term degree data under every split, against sequential values.
// PARTS 6
// RELEASE 4
#include <array>

#include "ops.hpp"

namespace
{
// What obake::byte_size() must give, term by term, without the library's algorithm.
template <class P>
std::size_t plain_byte_size(const P &p)
{
    sim::harness h;
    const auto &tabs = p._get_s_table();
    std::size_t r = sizeof(P) + tabs.size() * sizeof(tabs[0]);
    for (const auto &tab : tabs)
        for (const auto &t : tab) {
            r += obake::byte_size(t.first) + obake::byte_size(t.second);
            r += sizeof(obake::series_term_t<P>) - sizeof(t.first) - sizeof(t.second);
        }
    return r;
}
template <class T>
bool is_long(const T &v, long w)
{
    sim::harness h;
    if constexpr (std::is_same_v<T, zint>) {
        return v == zint(w);
    } else {
        return static_cast<__int128>(v) == static_cast<__int128>(w);
    }
}
inline std::set<std::string> gen_sel()
{
    sim::harness h;
    static const char *names[] = {"a", "b", "c", "x", "y", "z", "", "unrelated"};
    std::set<std::string> sel;
    const auto mask = sim::draw(256);
    for (unsigned i = 0; i < 8; ++i)
        if (mask & (1u << i)) sel.insert(names[i]);
    return sel;
}
// ------------------------------------------------------------------ one level
template <class P>
void flat_case(long hi)
{
    using C = obake::series_cf_t<P>;
    using T = typename keyio<obake::series_key_t<P>>::T_;
    const auto cfg = configure();
    cf_bs = pick_bs();
    gen_opts o;
    static const unsigned sz[] = {1, 4, 16, 40, 100};
    o.max_terms = sz[sim::draw(5)];
    o.hi = hi;
    o.lo = 0;
    if constexpr (std::is_signed_v<T>) {
        // All negative, mixed or non-negative exponents.
        switch (sim::draw(3)) {
            case 0: break;
            case 1: o.lo = -hi; break;
            default: o.lo = -hi, o.hi = -1;
        }
    }
    const auto m = gen_model<C>(gen_symbols(4), o);
    const auto p = build<P>(m, static_cast<unsigned>(sim::draw(7)));
    const auto q = build<P>(m, static_cast<unsigned>(sim::draw(3)));
    const auto sel = gen_sel();
    const auto sels = to_ss({sel.begin(), sel.end()});
    long deg = 0, pdeg = 0;
    {
        sim::harness h;
        bool first = true;
        for (const auto &t : m.t) {
            const auto d = m.degree(t.first), pd = m.pdegree(t.first, sel);
            deg = first ? d : std::max(deg, d);
            pdeg = first ? pd : std::max(pdeg, pd);
            first = false;
        }
    }
    const auto bs = plain_byte_size(p), bsq = plain_byte_size(q);
    if (p.get_s_size() && p.size() > 1u) sim::nontrivial();
    auto one = [&]() {
        const unsigned n = 1 + static_cast<unsigned>(sim::draw(3));
        for (unsigned i = 0; i < n; ++i) {
            switch (sim::draw(4)) {
                case 0:
                    sim::check(is_long(obake::degree(p), deg), "wrong-result", "the degree is wrong");
                    break;
                case 1:
                    sim::check(is_long(obake::p_degree(p, sels), pdeg), "wrong-result", "the partial degree is wrong");
                    break;
                default: {
                    const auto got = obake::byte_size(p), gotq = obake::byte_size(q);
                    sim::harness h;
                    sim::probe("sized");
                    if (got != bs || gotq != bsq) sim::violation("wrong-result", "the byte size is " + std::to_string(got) + ", " + std::to_string(gotq) + " instead of " + std::to_string(bs) + ", " + std::to_string(bsq));
                }
            }
        }
    };
    const unsigned nt = static_cast<unsigned>(sim::draw(3));
    for (unsigned i = 0; i < nt; ++i) sim::go("caller", one);
    one();
    sim::join_all();
    if (nt) sim::probe("several_callers");
    sim::check(is_long(obake::degree(p), deg) && is_long(obake::degree(q), deg), "wrong-result", "the degree is wrong");
    sim::check(is_long(obake::p_degree(p, sels), pdeg), "wrong-result", "the partial degree is wrong");
    sim::check(is_long(obake::p_degree(q, sels), pdeg), "wrong-result", "the partial degree is wrong");
    // A truncation of the segmented object keeps exactly the right terms, and its measures follow.
    const bool part = sim::chance(1, 2);
    const long lim = sim::range((part ? pdeg : deg) - 4, (part ? pdeg : deg) + 1);
    if (std::is_signed_v<T> || lim >= 0) {
        model<C> want;
        {
            sim::harness h;
            want.ss = m.ss;
            for (const auto &t : m.t)
                if ((part ? m.pdegree(t.first, sel) : m.degree(t.first)) <= lim) want.t.insert(t);
        }
        P r(p);
        if (part) {
            obake::truncate_p_degree(r, static_cast<T>(lim), sels);
        } else {
            obake::truncate_degree(r, static_cast<T>(lim));
        }
        expect(r, want, "a truncated segmented object");
        const auto b1 = obake::byte_size(r), b2 = plain_byte_size(r);
        sim::check(b1 == b2, "wrong-result", "the byte size after a truncation is wrong");
    }
    expect(p, m, "measured object");
    mixstate({p.get_s_size(), p.size(), cfg.workers, nt, q.get_s_size()});
}
// ------------------------------------------------------------------ polynomial coefficients
// The degree of a term is that of its key plus that of its coefficient.
template <class P>
void nested_case(long hi)
{
    using I = obake::series_cf_t<P>;
    using C = obake::series_cf_t<I>;
    const auto cfg = configure();
    cf_bs = pick_bs();
    struct nmodel {
        std::vector<std::string> os, is;
        std::map<std::vector<long>, model<C>> t;
        long deg(const std::vector<long> &ok, const std::set<std::string> *sel) const
        {
            long d = 0, di = 0;
            for (std::size_t i = 0; i < os.size(); ++i)
                if (!sel || sel->count(os[i])) d += ok[i];
            bool first = true;
            const auto &im = t.at(ok);
            for (const auto &x : im.t) {
                const auto e = sel ? im.pdegree(x.first, *sel) : im.degree(x.first);
                di = first ? e : std::max(di, e);
                first = false;
            }
            return d + di;
        }
        long span(bool mx, const std::set<std::string> *sel) const
        {
            long r = 0;
            bool first = true;
            for (const auto &x : t) {
                const auto d = deg(x.first, sel);
                if (first || (mx ? d > r : d < r)) r = d;
                first = false;
            }
            return r;
        }
    };
    auto gen = [&](const std::vector<std::string> &os, const std::vector<std::string> &is, unsigned n, long lo) {
        sim::harness h;
        nmodel m;
        m.os = os;
        m.is = is;
        gen_opts io;
        io.lo = lo;
        io.hi = hi;
        for (unsigned i = 0; i < n; ++i) {
            std::vector<long> k;
            for (std::size_t j = 0; j < os.size(); ++j) k.push_back(sim::range(lo, hi));
            io.max_terms = 1 + static_cast<unsigned>(sim::draw(4));
            auto im = gen_model<C>(is, io);
            if (!im.t.empty()) m.t.emplace(k, im);
        }
        return m;
    };
    auto bld = [&](const nmodel &m, unsigned seg) {
        P p;
        p.set_symbol_set(to_ss(m.os));
        if (seg) p.set_n_segments(seg);
        for (const auto &x : m.t) p.add_term(make_key<obake::series_key_t<P>>(x.first), build<I>(x.second, static_cast<unsigned>(sim::draw(3))));
        return p;
    };
    auto expect_n = [&](const P &p, const nmodel &m, const char *what) {
        const auto &tabs = p._get_s_table();
        std::size_t cnt = 0;
        std::string bad;
        sim::harness h;
        for (std::size_t i = 0; i < tabs.size(); ++i)
            for (const auto &t : tabs[i]) {
                ++cnt;
                const auto k = keyio<obake::series_key_t<P>>::exps(t.first, static_cast<unsigned>(p.get_symbol_set().size()));
                if ((obake::hash(t.first) & (tabs.size() - 1u)) != i) bad = "a term is in the wrong segment";
                const auto it = m.t.find(k);
                if (it == m.t.end()) {
                    bad = "there is an extra term " + str(k);
                    continue;
                }
                const auto got = read_series(t.second, "a coefficient");
                const auto ss = merged(got.ss, it->second.ss);
                const auto d = diff(got.extended(ss), it->second.extended(ss));
                if (!d.empty()) bad = "the coefficient of " + str(k) + ": " + d;
            }
        if (bad.empty() && cnt != m.t.size()) bad = std::to_string(cnt) + " terms instead of " + std::to_string(m.t.size());
        std::vector<std::string> ss(p.get_symbol_set().begin(), p.get_symbol_set().end());
        if (bad.empty() && ss != m.os) bad = "the symbols are wrong";
        if (!bad.empty()) sim::violation("wrong-result", std::string(what) + ": " + bad);
    };
    static const unsigned sz[] = {1, 4, 9, 14};
    // NOTE: the inner symbols may coincide with the outer ones.
    const auto os = gen_symbols(2), is = gen_symbols(2);
    const bool neg = std::is_signed_v<typename keyio<obake::series_key_t<P>>::T_> && sim::chance(1, 2);
    const auto mf = gen(os, is, 1 + static_cast<unsigned>(sim::draw(sz[sim::draw(4)])), neg ? -hi : 0);
    const auto mg = gen(os, is, 1 + static_cast<unsigned>(sim::draw(sz[sim::draw(4)])), neg ? -hi : 0);
    const auto f = bld(mf, static_cast<unsigned>(sim::draw(5))), g = bld(mg, static_cast<unsigned>(sim::draw(3)));
    const auto sel = gen_sel();
    const auto sels = to_ss({sel.begin(), sel.end()});
    const long df = mf.span(true, nullptr), pf = mf.span(true, &sel);
    nmodel want;
    {
        sim::harness h;
        want.os = mf.os;
        for (const auto &x : mf.t)
            for (const auto &y : mg.t) {
                std::vector<long> k(x.first);
                for (std::size_t i = 0; i < k.size(); ++i) k[i] += y.first[i];
                const auto pr = mmul(x.second, y.second);
                auto [it, nw] = want.t.try_emplace(k, pr);
                if (!nw) it->second = madd(it->second, pr);
            }
        for (auto it = want.t.begin(); it != want.t.end();) it = it->second.t.empty() ? want.t.erase(it) : std::next(it);
    }
    const auto bs = plain_byte_size(f);
    auto one = [&]() {
        sim::check(is_long(obake::degree(f), df), "wrong-result", "the degree is wrong");
        sim::check(is_long(obake::p_degree(f, sels), pf), "wrong-result", "the partial degree is wrong");
        const auto got = obake::byte_size(f);
        sim::check(got == bs, "wrong-result", "the byte size is wrong");
        const auto r = f * g;
        expect_n(r, want, "a product of polynomials with polynomial coefficients");
        const auto dr = want.span(true, nullptr), pr = want.span(true, &sel);
        sim::check(is_long(obake::degree(r), dr), "wrong-result", "the degree of a product is wrong");
        sim::check(is_long(obake::p_degree(r, sels), pr), "wrong-result", "the partial degree of a product is wrong");
        sim::check(obake::byte_size(r) == plain_byte_size(r), "wrong-result", "the byte size of a product is wrong");
        sim::probe("nested_product");
        if (r.get_s_size()) {
            sim::probe("segmented_product");
            sim::nontrivial();
        }
    };
    const unsigned nt = sim::chance(1, 3) ? 1 : 0;
    for (unsigned i = 0; i < nt; ++i) sim::go("caller", one);
    one();
    sim::join_all();
    expect_n(f, mf, "left operand");
    expect_n(g, mg, "right operand");
    mixstate({f.get_s_size(), f.size(), g.size(), cfg.workers, nt});
}
// ------------------------------------------------------------------ degrees next to what can be represented
template <class P>
void extreme_case()
{
    using C = obake::series_cf_t<P>;
    using T = typename keyio<obake::series_key_t<P>>::T_;
    using L = std::numeric_limits<T>;
    const auto cfg = configure();
    cf_bs = pick_bs();
    static const unsigned sz[] = {1, 4, 16, 40};
    const auto syms = gen_symbols(4);
    const auto sel = gen_sel();
    const auto sels = to_ss({sel.begin(), sel.end()});
    model<C> m;
    // What must come out: a value, or an overflow.
    bool over = false, pover = false;
    __int128 deg = 0, pdeg = 0;
    {
        sim::harness h;
        m.ss = syms;
        const unsigned n = 1 + static_cast<unsigned>(sim::draw(sz[sim::draw(4)]));
        const bool may_overflow = sim::chance(1, 2);
        for (unsigned i = 0; i < n; ++i) {
            // All exponents of a term have the same sign, so that the order of the summation does not matter.
            const bool neg = std::is_signed_v<T> && sim::chance(1, 3);
            const __int128 mx = neg ? -static_cast<__int128>(L::min()) : static_cast<__int128>(L::max());
            __int128 left = sim::chance(1, 2) ? static_cast<__int128>(sim::draw(40)) : mx + (may_overflow && sim::chance(1, 4) ? 1 + static_cast<__int128>(sim::draw(3)) : -static_cast<__int128>(sim::draw(4)));
            std::vector<long> k(syms.size());
            for (std::size_t j = 0; j < syms.size(); ++j) {
                __int128 e = j + 1u == syms.size() ? left : sim::chance(1, 2) ? static_cast<__int128>(sim::draw(3)) : left / static_cast<__int128>(1 + sim::draw(3));
                if (e > left) e = left;
                // What a word can hold.
                const auto klims = obake::detail::kpack_get_lims<T>(1);
                if (e > static_cast<__int128>(neg ? -klims.first : klims.second)) e = static_cast<__int128>(neg ? -klims.first : klims.second);
                left -= e;
                k[j] = static_cast<long>(neg ? -e : e);
            }
            m.t.emplace(k, C(1 + static_cast<int>(sim::draw(5))));
        }
        bool first = true;
        for (const auto &t : m.t) {
            __int128 d = 0, pd = 0;
            for (std::size_t j = 0; j < syms.size(); ++j) {
                d += t.first[j];
                if (sel.count(syms[j])) pd += t.first[j];
            }
            over = over || d > L::max() || d < L::min();
            pover = pover || pd > L::max() || pd < L::min();
            deg = first ? d : std::max(deg, d);
            pdeg = first ? pd : std::max(pdeg, pd);
            first = false;
        }
    }
    const auto p = build<P>(m, static_cast<unsigned>(sim::draw(7)));
    if (p.get_s_size() && p.size() > 1u) sim::nontrivial();
    auto is = [&](auto f, bool ov, __int128 want, const char *what) {
        bool thrown = false;
        __int128 got = 0;
        try {
            got = static_cast<__int128>(f());
        } catch (const std::overflow_error &) {
            thrown = true;
        }
        sim::harness h;
        if (thrown) sim::probe("degree_overflow");
        if (thrown != ov) sim::violation("wrong-result", std::string(what) + (ov ? " is not representable, but there is no overflow error" : " is representable, but there is an overflow error"));
        if (!ov && got != want) sim::violation("wrong-result", std::string(what) + " is wrong");
    };
    auto one = [&]() {
        const unsigned n = 1 + static_cast<unsigned>(sim::draw(3));
        for (unsigned i = 0; i < n; ++i) {
            if (sim::chance(1, 2)) {
                is([&]() { return obake::degree(p); }, over, deg, "the degree");
            } else {
                is([&]() { return obake::p_degree(p, sels); }, pover, pdeg, "the partial degree");
            }
        }
    };
    const unsigned nt = static_cast<unsigned>(sim::draw(3));
    for (unsigned i = 0; i < nt; ++i) sim::go("caller", one);
    one();
    sim::join_all();
    if (nt) sim::probe("several_callers");
    // Truncation by a limit, which may fail for the same reason; the object stays usable.
    const bool part = sim::chance(1, 2);
    const T lim = static_cast<T>(sim::chance(1, 2) ? sim::range(0, 40) : static_cast<long>(L::max()) - static_cast<long>(sim::draw(4)));
    P r(p);
    bool thrown = false;
    try {
        if (part) {
            obake::truncate_p_degree(r, lim, sels);
        } else {
            obake::truncate_degree(r, lim);
        }
    } catch (const std::overflow_error &) {
        thrown = true;
    }
    sim::check(thrown == (part ? pover : over), "wrong-result", "the truncation of a series fails when it should not, or does not fail");
    if (!thrown) {
        model<C> want;
        {
            sim::harness h;
            want.ss = m.ss;
            for (const auto &t : m.t) {
                __int128 d = 0;
                for (std::size_t j = 0; j < syms.size(); ++j)
                    if (!part || sel.count(syms[j])) d += t.first[j];
                if (d <= static_cast<__int128>(lim)) want.t.insert(t);
            }
        }
        expect(r, want, "a truncated segmented object");
    } else {
        read_series(r, "an object whose truncation failed");
    }
    expect(p, m, "measured object");
    mixstate({p.get_s_size(), p.size(), cfg.workers, nt, over, pover});
}
// The same with polynomial coefficients: each part is representable, their sum perhaps not.
template <class P>
void extreme_nested()
{
    using I = obake::series_cf_t<P>;
    const auto cfg = configure();
    cf_bs = pick_bs();
    const auto klims = obake::detail::kpack_get_lims<long>(1);
    std::vector<std::string> os, is;
    std::vector<std::array<long, 3>> terms; // two outer exponents, an inner one
    bool over = false;
    __int128 deg = 0;
    {
        sim::harness h;
        os = {"x", "y"};
        is = {sim::chance(1, 2) ? "z" : "x"};
        const unsigned n = 1 + static_cast<unsigned>(sim::draw(20));
        std::set<std::pair<long, long>> seen;
        for (unsigned i = 0; i < n; ++i) {
            const bool neg = sim::chance(1, 3);
            auto e = [&]() {
                const long v = sim::chance(2, 3) ? static_cast<long>(sim::draw(40)) : klims.second - static_cast<long>(sim::draw(4));
                return neg ? -v : v;
            };
            std::array<long, 3> t{e(), e(), e()};
            const auto out = static_cast<__int128>(t[0]) + t[1];
            // The outer part alone must be representable here.
            if (out > std::numeric_limits<long>::max() || out < std::numeric_limits<long>::min() || !seen.insert({t[0], t[1]}).second) continue;
            const auto d = out + t[2];
            over = over || d > std::numeric_limits<long>::max() || d < std::numeric_limits<long>::min();
            deg = terms.empty() ? d : std::max(deg, d);
            terms.push_back(t);
        }
    }
    if (terms.empty()) return;
    P p;
    p.set_symbol_set(to_ss(os));
    if (const auto seg = static_cast<unsigned>(sim::draw(5))) p.set_n_segments(seg);
    for (const auto &t : terms) {
        I c;
        c.set_symbol_set(to_ss(is));
        c.add_term(make_key<obake::series_key_t<I>>({t[2]}), obake::series_cf_t<I>(2));
        p.add_term(make_key<obake::series_key_t<P>>({t[0], t[1]}), std::move(c));
    }
    if (p.get_s_size() && p.size() > 1u) sim::nontrivial();
    auto one = [&]() {
        bool thrown = false;
        __int128 got = 0;
        try {
            got = obake::degree(p);
        } catch (const std::overflow_error &) {
            thrown = true;
        }
        sim::harness h;
        if (thrown) sim::probe("nested_degree_overflow");
        if (thrown != over) sim::violation("wrong-result", over ? "the degree is not representable, but there is no overflow error" : "the degree is representable, but there is an overflow error");
        if (!over && got != deg) sim::violation("wrong-result", "the degree is wrong");
    };
    const unsigned nt = static_cast<unsigned>(sim::draw(3));
    for (unsigned i = 0; i < nt; ++i) sim::go("caller", one);
    one();
    sim::join_all();
    mixstate({p.get_s_size(), p.size(), cfg.workers, nt, over, 77});
}
} // namespace

#if PART == 0
SIM_WORKLOAD(meas0, "measures of segmented objects")
{
    switch (sim::draw(3)) {
        case 0: return flat_case<obake::polynomial<pm64, scf>>(6);
        case 1: return flat_case<obake::polynomial<pmu64, bcf>>(6);
        default: return flat_case<obake::polynomial<dpm2, scf>>(5);
    }
}
#elif PART == 1
SIM_WORKLOAD(meas1, "measures of segmented objects")
{
    switch (sim::draw(2)) {
        case 0: return flat_case<obake::polynomial<pm32, bcf>>(6);
        default: return flat_case<obake::polynomial<dpm8, zint>>(5);
    }
}
#elif PART == 2
SIM_WORKLOAD(meas2, "measures of segmented objects with polynomial coefficients")
{
    nested_case<obake::polynomial<pm64, obake::polynomial<pm64, scf>>>(3);
}
#elif PART == 3
SIM_WORKLOAD(meas3, "measures of segmented objects with polynomial coefficients")
{
    nested_case<obake::polynomial<dpm2, obake::polynomial<pm64, bcf>>>(3);
}
#elif PART == 5
SIM_WORKLOAD(meas5, "degrees next to what can be represented")
{
    switch (sim::draw(3)) {
        case 0: return extreme_case<obake::polynomial<dpm1, scf>>();
        case 1: return extreme_nested<obake::polynomial<dpm1, obake::polynomial<dpm1, scf>>>();
        default: return extreme_case<obake::polynomial<obake::d_packed_monomial<std::int32_t, 1>, bcf>>();
    }
}
#else
SIM_WORKLOAD(meas4, "measures of segmented objects with polynomial coefficients (no assertions)")
{
    nested_case<obake::polynomial<pm64, obake::polynomial<dpm2, scf>>>(3);
}
#endif
