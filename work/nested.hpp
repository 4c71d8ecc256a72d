// Series whose coefficients may be series: text form and random objects.
#ifndef VERIF_WORK_NESTED_HPP
#define VERIF_WORK_NESTED_HPP
#include "ops.hpp"

template <class P>
struct is_nested : std::false_type {
};
template <class K, class K2, class C2, class T, class T2>
struct is_nested<obake::series<K, obake::series<K2, C2, T2>, T>> : std::true_type {
};
// The content as text, for polynomial coefficients too (harness memory).
template <class P>
std::string text_of(const P &p, const char *what)
{
    if constexpr (is_nested<P>::value) {
        std::map<std::vector<long>, std::string> m;
        const auto &tabs = p._get_s_table();
        sim::harness h;
        std::string s = trunc_text(p);
        for (const auto &x : p.get_symbol_set()) s += x + ",";
        s += "|";
        std::size_t n = 0;
        for (std::size_t i = 0; i < tabs.size(); ++i)
            for (const auto &t : tabs[i]) {
                ++n;
                if ((obake::hash(t.first) & (tabs.size() - 1u)) != i) sim::violation("malformed", std::string(what) + ": a term is in the wrong segment");
                m.emplace(keyio<obake::series_key_t<P>>::exps(t.first, static_cast<unsigned>(p.get_symbol_set().size())), dump(t.second, what));
            }
        if (n != m.size() || n != p.size()) sim::violation("malformed", std::string(what) + ": wrong size");
        for (const auto &x : m) s += str(x.first) + "[" + x.second + "]";
        return s;
    } else {
        return dump(p, what);
    }
}
template <class P>
P make_random(unsigned max_terms = 15, long hi = 3, long lo = 0)
{
    using C = obake::series_cf_t<P>;
    gen_opts o;
    o.max_terms = 1 + static_cast<unsigned>(sim::draw(max_terms - 1u));
    o.hi = hi;
    o.lo = lo;
    const auto ss = gen_symbols(3);
    const auto seg = static_cast<unsigned>(sim::draw(5));
    if constexpr (is_nested<P>::value) {
        std::vector<std::vector<long>> keys;
        {
            sim::harness h;
            for (const auto &x : gen_model<scf>(ss, o).t) keys.push_back(x.first);
        }
        P p;
        p.set_symbol_set(to_ss(ss));
        if (seg) p.set_n_segments(seg);
        for (const auto &k : keys) {
            auto c = make_random<C>(max_terms, hi, lo);
            if (!c.empty()) p.add_term(make_key<obake::series_key_t<P>>(k), std::move(c));
        }
        apply_trunc(p, gen_trunc());
        return p;
    } else {
        P p = build<P>(gen_model<C>(ss, o), seg);
        apply_trunc(p, gen_trunc());
        // Sometimes what the parallel multiplication made.
        if (hi <= 3 && sim::chance(1, 4)) return p * p;
        return p;
    }
}
#endif
