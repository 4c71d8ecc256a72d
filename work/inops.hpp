// A library of operations that modify or consume series.
#ifndef VERIF_WORK_INOPS_HPP
#define VERIF_WORK_INOPS_HPP
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>

#include <obake/math/negate.hpp>
#include <obake/s11n.hpp>

#include "ops.hpp"

enum iop_kind : unsigned {
    i_add, i_sub, i_mul, i_addr, i_subr, i_mulr, i_addc, i_subc, i_mulc, i_divc, i_copy, i_move, i_swap, i_addterm, i_nseg,
    i_symset, i_clear, i_clearterms, i_filter, i_trunc, i_untrunc, i_load, i_radd, i_addr2, i_rsub, i_subr2, i_rmul, i_mulr2, i_rneg, i_negate,
    i_selfadd, i_selfsub, i_selfmul, i_selfassign, i_rconv, i_raddsym, i_rtrim, i_rfiltered, i_reserve, i_rpow, i_rdivc,
    i_raddc, i_movector, i_assignint, i_assigncf, i_rradd, i_rrsub, i_rrmul, i_rsymset, i_count_
};
inline const char *iop_name(unsigned k)
{
    static const char *n[] = {"f+=g", "f-=g", "f*=g", "f+=move(h)", "f-=move(h)", "f*=move(h)", "f+=c", "f-=c", "f*=c", "f/=c", "f=g", "f=move(h)", "swap",
                              "add_term", "set_n_segments", "set_symbol_set", "clear", "clear_terms", "filter", "truncate", "unset_truncation", "load",
                              "move(h)+g", "g+move(h)", "move(h)-g", "g-move(h)", "move(h)*g", "g*move(h)", "-move(h)", "negate", "f+=f", "f-=f", "f*=f", "f=f",
                              "conversion of move(h)", "add_symbols(move(h))", "trim(move(h))", "filtered(move(h))", "reserve", "pow(move(h))", "move(h)/c",
                              "move(h)+c", "move construction", "f=integer", "f=coefficient", "move(h)+move(f)", "move(h)-move(f)", "move(h)*move(f)",
                              "series of lower rank with symbols"};
    return n[k];
}
template <class P>
bool iop_supported(unsigned k)
{
    using C = obake::series_cf_t<P>;
    switch (k) {
        case i_divc:
        case i_rdivc: return std::is_same_v<C, qcf> || std::is_same_v<C, bcf>;
        case i_rconv: return std::is_same_v<C, bcf> || std::is_same_v<C, scf>;
        case i_untrunc: return is_ps<P>;
        case i_load: return !std::is_same_v<obake::series_key_t<P>, tkey>;
        default: return true;
    }
}
struct iopinst {
    unsigned kind = 0;
    long a = 0;
    unsigned n = 0;
    std::vector<std::string> sel;
    trunc_spec tr;
    std::vector<std::pair<std::vector<long>, long>> terms;
    std::string bytes; // a saved copy of g
    bool text = false;
};
template <class P>
iopinst gen_iop(const P &f, const P &g)
{
    iopinst o;
    sim::harness h;
    do {
        o.kind = static_cast<unsigned>(sim::draw(i_count_));
    } while (!iop_supported<P>(o.kind));
    o.a = sim::range(-3, 4);
    o.n = static_cast<unsigned>(sim::draw(4));
    auto mask = sim::draw(64);
    static const char *names[] = {"a", "b", "c", "x", "y", "unrelated"};
    for (unsigned i = 0; i < 6; ++i)
        if (mask & (1u << i)) o.sel.push_back(names[i]);
    if (o.kind == i_trunc) {
        do {
            o.tr = gen_trunc(0);
        } while (o.tr.kind == 0);
    }
    if (o.kind == i_addterm) {
        const auto nt = 1 + sim::draw(5);
        for (std::uint64_t i = 0; i < nt; ++i) {
            std::vector<long> e;
            for (std::size_t j = 0; j < f.get_symbol_set().size(); ++j) e.push_back(sim::range(exp_lo<P>(true), 3));
            o.terms.emplace_back(std::move(e), sim::range(-2, 2));
        }
    }
    if constexpr (!std::is_same_v<obake::series_key_t<P>, tkey>) {
        if (o.kind == i_load) {
            o.text = sim::chance(1, 3);
            // NOTE: Boost's statics are created here, in the harness's memory.
            std::ostringstream oss;
            if (o.text) {
                boost::archive::text_oarchive ar(oss);
                ar << g;
            } else {
                boost::archive::binary_oarchive ar(oss);
                ar << g;
            }
            o.bytes = oss.str();
            std::istringstream iss(o.bytes);
            P tmp;
            if (o.text) {
                boost::archive::text_iarchive ar(iss);
                ar >> tmp;
            } else {
                boost::archive::binary_iarchive ar(iss);
                ar >> tmp;
            }
        }
    }
    return o;
}
// f is modified, g is constant, x may be consumed.
template <class P>
void do_iop(const iopinst &o, P &f, const P &g, P &x)
{
    using C = obake::series_cf_t<P>;
    using K = obake::series_key_t<P>;
    switch (o.kind) {
        case i_add: f += g; break;
        case i_sub: f -= g; break;
        case i_mul: f *= g; break;
        case i_addr: f += std::move(x); break;
        case i_subr: f -= std::move(x); break;
        case i_mulr: f *= std::move(x); break;
        case i_addc: f += lit<C>(o.a); break;
        case i_subc: f -= lit<C>(o.a); break;
        case i_mulc: f *= lit<C>(o.a); break;
        case i_divc:
            if constexpr (std::is_same_v<C, qcf> || std::is_same_v<C, bcf>) f /= lit<C>(o.a ? o.a : 5);
            break;
        case i_copy: f = g; break;
        case i_move: f = std::move(x); break;
        case i_swap: {
            using std::swap;
            swap(f, x);
            break;
        }
        case i_addterm:
            // NOTE: add_term() does not truncate.
            if constexpr (is_ps<P>) obake::unset_truncation(f);
            for (auto &t : o.terms)
                if (t.first.size() == f.get_symbol_set().size()) f.add_term(make_key<K>(t.first), lit<C>(t.second));
            break;
        case i_nseg: f.set_n_segments(o.n); break;
        case i_symset:
            f.clear_terms();
            f.set_symbol_set(to_ss(o.sel));
            break;
        case i_clear: f.clear(); break;
        case i_clearterms: f.clear_terms(); break;
        case i_filter:
            obake::filter(f, [&](const auto &t) {
                key_site();
                return (obake::hash(t.first) + o.n) % 3u != 0u;
            });
            break;
        case i_trunc:
            if constexpr (is_ps<P>) {
                apply_trunc(f, o.tr);
            } else if (o.tr.kind == 1) {
                obake::truncate_degree(f, static_cast<std::int64_t>(o.tr.deg));
            } else {
                obake::truncate_p_degree(f, static_cast<std::int64_t>(o.tr.deg), to_ss(o.tr.sel));
            }
            break;
        case i_untrunc:
            if constexpr (is_ps<P>) obake::unset_truncation(f);
            break;
        case i_load:
            if constexpr (!std::is_same_v<K, tkey>) {
                std::istringstream iss(o.bytes);
                if (o.text) {
                    boost::archive::text_iarchive ar(iss);
                    ar >> f;
                } else {
                    boost::archive::binary_iarchive ar(iss);
                    ar >> f;
                }
            }
            break;
        case i_radd: f = std::move(x) + g; break;
        case i_addr2: f = g + std::move(x); break;
        case i_rsub: f = std::move(x) - g; break;
        case i_subr2: f = g - std::move(x); break;
        case i_rmul: f = std::move(x) * g; break;
        case i_mulr2: f = g * std::move(x); break;
        case i_rneg: f = -std::move(x); break;
        case i_negate: obake::negate(f); break;
        case i_selfadd: f += std::as_const(f); break;
        case i_selfsub: f -= std::as_const(f); break;
        case i_selfmul: f *= std::as_const(f); break;
        case i_selfassign: f = std::as_const(f); break;
        case i_rconv:
            if constexpr (std::is_same_v<C, bcf> || std::is_same_v<C, scf>) {
                using D = std::conditional_t<std::is_same_v<C, bcf>, scf, nib>;
                if constexpr (is_ps<P>) {
                    obake::p_series<K, D> q(std::move(x));
                    dump(q, "converted series");
                } else {
                    obake::polynomial<K, D> q(std::move(x));
                    dump(q, "converted series");
                }
            }
            break;
        case i_raddsym: f = obake::add_symbols(std::move(x), to_ss(o.sel)); break;
        case i_rtrim: f = obake::trim(std::move(x)); break;
        case i_rfiltered:
            f = obake::filtered(std::move(x), [&](const auto &t) {
                key_site();
                return (obake::hash(t.first) + o.n) % 2u != 0u;
            });
            break;
        case i_reserve: f.reserve(o.n * 20u); break;
        case i_rpow: f = obake::pow(std::move(x), o.n); break;
        case i_rdivc:
            if constexpr (std::is_same_v<C, qcf> || std::is_same_v<C, bcf>) f = std::move(x) / lit<C>(o.a ? o.a : 5);
            break;
        case i_raddc: f = std::move(x) + lit<C>(o.a); break;
        case i_movector: {
            P t(std::move(x));
            f = std::move(t);
            break;
        }
        case i_assignint: f = static_cast<int>(o.a); break;
        case i_assigncf: f = lit<C>(o.a); break;
        case i_rradd: f = std::move(x) + std::move(f); break;
        case i_rrsub: f = std::move(x) - std::move(f); break;
        case i_rrmul: f = std::move(x) * std::move(f); break;
        case i_rsymset: f = P(lit<C>(o.a), to_ss(o.sel)); break;
    }
}
// Moved-from series may only be assigned to and destroyed.
template <class P>
bool moved_from(const P &p)
{
    return p._get_s_table().size() != (std::size_t(1) << p.get_s_size());
}
// The object must be fully usable.
template <class P>
void use(P &f, const char *what)
{
    using C = obake::series_cf_t<P>;
    const auto d = dump(f, what);
    {
        P c(f);
        const bool eq = c == f && !(c != f);
        sim::check(eq, "unusable", "a copy of an object differs from it after a failure");
        const auto dc = dump(c, what);
        {
            sim::harness h;
            sim::check(d == dc, "unusable", "a copy of an object has another content after a failure");
        }
        std::ostringstream oss;
        oss << f;
        c -= f;
        sim::check(c.empty(), "unusable", "f - f is not zero after a failure");
        c = f;
        c += lit<C>(1);
        c -= lit<C>(1);
        const auto dd = dump(c, what);
        // NOTE: a truncation below zero removes the constant.
        (void)dd;
        P e(f.size() <= 8u ? f * f : -f);
        dump(e, what);
        e.clear();
        e = std::move(c);
        dump(e, what);
        e.set_n_segments(1);
        e += f;
        dump(e, what);
    }
    const auto d2 = dump(f, what);
    sim::harness h;
    sim::check(d == d2, "unusable", "using copies of an object changed it");
}
#endif
