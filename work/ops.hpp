// A library of value-producing operations on polynomials and power series. Each takes
// const operands and returns its outcome as text (the harness's own memory).
#ifndef VERIF_WORK_OPS_HPP
#define VERIF_WORK_OPS_HPP
#include <initializer_list>
#include <sstream>
#include <typeinfo>

#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/power_series/power_series.hpp>
#include <obake/tex_stream_insert.hpp>

#include "common.hpp"

using qcf = mppp::rational<1>;

template <class P>
inline constexpr bool is_ps = obake::any_p_series<P>;

// ---------------------------------------------------------------- text forms (harness memory)
inline std::string cf_text(const scf &c)
{
    return std::to_string(static_cast<std::int64_t>(c.val()));
}
inline std::string cf_text(const bcf &c)
{
    return std::to_string(static_cast<std::int64_t>(c.val()));
}
inline std::string cf_text(const nib &c)
{
    return std::to_string(c.v);
}
template <class T>
    requires requires(const T &x) { x.to_string(); }
std::string cf_text(const T &x)
{
    return x.to_string();
}
template <class T>
    requires std::is_integral_v<T>
std::string cf_text(const T &x)
{
    return std::to_string(x);
}
template <class P>
std::string trunc_text(const P &p)
{
    if constexpr (is_ps<P>) {
        const auto &t = obake::get_truncation(p);
        std::string s;
        if (t.index() == 1) {
            s = "T" + cf_text(std::get<1>(t));
        } else if (t.index() == 2) {
            s = "P" + cf_text(std::get<2>(t).first) + ":";
            for (const auto &x : std::get<2>(t).second) s += x + ",";
        }
        return s + "|";
    } else {
        return "";
    }
}
// Every power series respects its truncation.
template <class P>
void check_truncation(const P &p, const model<obake::series_cf_t<P>> &m, const char *what)
{
    if constexpr (is_ps<P>) {
        sim::harness h;
        const auto &t = obake::get_truncation(p);
        if (t.index() == 1) {
            for (auto &x : m.t)
                if (std::get<1>(t) < m.degree(x.first))
                    sim::violation("beyond-truncation", std::string(what) + ": the term " + str(x.first) + " is beyond the truncation degree " + cf_text(std::get<1>(t)));
        } else if (t.index() == 2) {
            std::set<std::string> sel;
            for (const auto &x : std::get<2>(t).second) sel.insert(x);
            for (auto &x : m.t)
                if (std::get<2>(t).first < m.pdegree(x.first, sel))
                    sim::violation("beyond-truncation", std::string(what) + ": the term " + str(x.first) + " is beyond the partial truncation degree " + cf_text(std::get<2>(t).first));
        }
    }
}
template <class P>
model<obake::series_cf_t<P>> read_checked(const P &p, const char *what)
{
    auto m = read_series(p, what);
    check_truncation(p, m, what);
    return m;
}
template <class P>
std::string dump(const P &p, const char *what = "result")
{
    auto m = read_checked(p, what);
    sim::harness h;
    std::string s = trunc_text(p);
    for (auto &x : m.ss) s += x + ",";
    s += "|";
    for (auto &x : m.t) s += str(x.first) + cf_text(x.second) + ";";
    return s;
}

// ---------------------------------------------------------------- operations
struct opinst {
    unsigned kind = 0;
    long a = 0, b = 0, n = 0;
    std::vector<std::string> sel;
    bool same = false;
    std::uint64_t fill = 0;
};
enum op_kind : unsigned {
    op_add, op_sub, op_mul, op_neg, op_copy, op_pow, op_tmul, op_ptmul, op_trunc, op_ptrunc, op_subs, op_eval, op_diff,
    op_integrate, op_filtered, op_addsym, op_trim, op_eq, op_degree, op_pdegree, op_bytes, op_stream, op_tex, op_addc,
    op_subc, op_mulc, op_divc, op_ofint, op_ofcf, op_conv, op_make, op_merge, op_stats, op_find, op_tocf, op_cmpc, op_plus, op_count_
};
inline const char *op_name(unsigned k)
{
    static const char *n[] = {"f+g", "f-g", "f*g", "-f", "copy", "pow", "truncated_mul", "truncated_mul (partial)", "truncate_degree",
                              "truncate_p_degree", "subs", "evaluate", "diff", "integrate", "filtered", "add_symbols", "trim", "==",
                              "degree", "p_degree", "byte_size", "stream", "tex", "f+c", "c-f", "f*c", "f/c", "from int", "from coefficient",
                              "conversion", "make", "symbol set", "table_stats", "find", "to coefficient", "==c", "+f"};
    return n[k];
}
template <class P>
bool op_supported(unsigned k)
{
    using C = obake::series_cf_t<P>;
    using K = obake::series_key_t<P>;
    switch (k) {
        case op_integrate: return std::is_same_v<C, qcf> && !std::is_same_v<K, tkey>;
        case op_eval:
        case op_diff: return !std::is_same_v<C, nib>;
        case op_tmul:
        case op_ptmul:
        case op_trunc:
        case op_ptrunc: return !is_ps<P>;
        case op_divc: return std::is_same_v<C, qcf> || std::is_same_v<C, bcf>;
        case op_conv: return std::is_same_v<C, bcf> || std::is_same_v<C, scf>;
        default: return true;
    }
}
template <class P>
opinst gen_op()
{
    sim::harness h;
    opinst o;
    do {
        o.kind = static_cast<unsigned>(sim::draw(op_count_));
    } while (!op_supported<P>(o.kind));
    o.a = sim::range(-3, 6);
    o.b = sim::range(-3, 6);
    o.n = static_cast<long>(sim::draw(5));
    auto mask = sim::draw(64);
    static const char *names[] = {"a", "b", "c", "x", "y", "unrelated"};
    for (unsigned i = 0; i < 6; ++i)
        if (mask & (1u << i)) o.sel.push_back(names[i]);
    o.same = sim::chance(1, 5);
    o.fill = sim::draw(3);
    return o;
}
template <class C>
C lit(long v)
{
    if constexpr (requires { C::make(v); }) {
        return C::make(v);
    } else {
        return C(v);
    }
}
template <class F>
std::string in_h(F f)
{
    sim::harness h;
    return f();
}

template <class P>
std::string do_op(const opinst &o, const P &f, const P &g_)
{
    using C = obake::series_cf_t<P>;
    using K = obake::series_key_t<P>;
    const P &g = o.same ? f : g_;
    auto d = [](const auto &p) { return dump(p); };
    auto symname = [&o]() -> const std::string & {
        static const std::string x("x");
        return o.sel.empty() ? x : o.sel.front();
    };
    switch (o.kind) {
        case op_add: return d(f + g);
        case op_sub: return d(f - g);
        case op_mul: return d(f * g);
        case op_neg: return d(-f);
        case op_plus: return d(+f);
        case op_copy: {
            P c(f);
            return d(c);
        }
        case op_pow: return d(obake::pow(f, static_cast<unsigned>(o.n)));
        case op_tmul:
            if constexpr (!is_ps<P>) return d(truncated_mul(f, g, static_cast<std::int64_t>(o.a)));
            break;
        case op_ptmul:
            if constexpr (!is_ps<P>) return d(truncated_mul(f, g, static_cast<std::int64_t>(o.a), to_ss(o.sel)));
            break;
        case op_trunc:
            if constexpr (!is_ps<P>) {
                P c(f);
                obake::truncate_degree(c, static_cast<std::int64_t>(o.a));
                return d(c);
            }
            break;
        case op_ptrunc:
            if constexpr (!is_ps<P>) {
                P c(f);
                obake::truncate_p_degree(c, static_cast<std::int64_t>(o.a), to_ss(o.sel));
                return d(c);
            }
            break;
        case op_subs: {
            obake::symbol_map<C> sm;
            for (const auto &s : o.sel) sm.emplace(s, lit<C>(o.a));
            return d(obake::subs(f, sm));
        }
        case op_eval: if constexpr (!std::is_same_v<C, nib>) {
            obake::symbol_map<C> sm;
            long v = o.a;
            for (const auto &s : f.get_symbol_set()) {
                if (o.fill || v != o.a) sm.emplace(s, lit<C>(v));
                v += o.b;
            }
            const C c = obake::evaluate(f, sm);
            return in_h([&]() { return cf_text(c); });
        }
        break;
        case op_diff: if constexpr (!std::is_same_v<C, nib>) return d(obake::diff(f, symname()));
            break;
        case op_integrate:
            if constexpr (std::is_same_v<C, qcf> && !std::is_same_v<K, tkey>) return d(obake::integrate(f, symname()));
            break;
        case op_filtered:
            return d(obake::filtered(f, [&](const auto &t) {
                key_site();
                return (obake::hash(t.first) + static_cast<std::size_t>(o.n)) % 3u != 0u;
            }));
        case op_addsym: return d(obake::add_symbols(f, to_ss(o.sel)));
        case op_trim: return d(obake::trim(f));
        case op_eq: {
            const bool e = f == g, n = f != g, e2 = g == f;
            sim::check(e != n && e == e2, "wrong-result", "equality is inconsistent");
            return in_h([&]() { return std::string(e ? "yes" : "no"); });
        }
        case op_degree: {
            const auto x = obake::degree(f);
            return in_h([&]() { return cf_text(x); });
        }
        case op_pdegree: {
            const auto x = obake::p_degree(f, to_ss(o.sel));
            return in_h([&]() { return cf_text(x); });
        }
        case op_bytes: {
            const auto x = obake::byte_size(f);
            return in_h([&]() { return std::to_string(x); });
        }
        case op_stream:
        case op_tex: {
            std::ostringstream oss;
            oss.exceptions(std::ios_base::failbit | std::ios_base::badbit);
            if (o.kind == op_stream) {
                oss << f;
            } else {
                if constexpr (requires { obake::tex_stream_insert(oss, f); }) {
                    obake::tex_stream_insert(oss, f);
                }
            }
            const auto s = oss.str();
            return in_h([&]() { return std::string(s); });
        }
        case op_addc: return d(f + lit<C>(o.a));
        case op_subc: return d(lit<C>(o.a) - f);
        case op_mulc: return d(f * lit<C>(o.a));
        case op_divc:
            if constexpr (std::is_same_v<C, qcf>) return d(f / lit<C>(o.a ? o.a : 7));
            if constexpr (std::is_same_v<C, bcf>) return d(f / lit<C>(o.a ? o.a : 7));
            break;
        case op_ofint: return d(P(static_cast<int>(o.a)));
        case op_ofcf: {
            const C c = lit<C>(o.a);
            if (o.fill) return d(P(c, to_ss(o.sel)));
            return d(P(c));
        }
        case op_conv:
            // Convert the coefficients.
            if constexpr (std::is_same_v<C, bcf>) {
                if constexpr (is_ps<P>) {
                    return d(obake::p_series<K, scf>(f));
                } else {
                    return d(obake::polynomial<K, scf>(f));
                }
            }
            if constexpr (std::is_same_v<C, scf>) {
                if constexpr (is_ps<P>) {
                    return d(obake::p_series<K, nib>(f));
                } else {
                    return d(obake::polynomial<K, nib>(f));
                }
            }
            break;
        case op_make: {
            std::vector<std::string> all = merged(o.sel, {"m", "x"});
            const auto ss = to_ss(all);
            if constexpr (is_ps<P>) {
                switch (o.fill) {
                    case 0: {
                        auto [a, b] = obake::make_p_series<P>(ss, "m", "x");
                        return d(a + b);
                    }
                    case 1: {
                        auto [a, b] = obake::make_p_series_t<P>(ss, o.a, "m", "x");
                        return d(a + b);
                    }
                    default: {
                        auto [a, b] = obake::make_p_series_p<P>(ss, o.a, to_ss(o.sel), "m", "x");
                        return d(a + b);
                    }
                }
            } else {
                if (o.fill) {
                    auto [a, b] = obake::make_polynomials<P>(ss, "m", "x");
                    return d(a + b);
                }
                auto [a, b] = obake::make_polynomials<P>("m", "x");
                return d(a - b);
            }
        }
        case op_merge: {
            const auto [m, i1, i2] = obake::detail::merge_symbol_sets(f.get_symbol_set(), to_ss(o.sel));
            P c;
            c.set_symbol_set(m);
            return d(c);
        }
        case op_stats: {
            const auto s = f.table_stats();
            return in_h([&]() { return std::string(s); });
        }
        case op_find: {
            std::size_t n = 0;
            for (const auto &t : g)
                if (g.get_symbol_set() == f.get_symbol_set() && f.find(t.first) != f.end()) ++n;
            return in_h([&]() { return std::to_string(n); });
        }
        case op_tocf: {
            const auto c = static_cast<C>(f);
            return in_h([&]() { return cf_text(c); });
        }
        case op_cmpc: {
            const bool e = f == lit<C>(o.a);
            return in_h([&]() { return std::string(e ? "yes" : "no"); });
        }
    }
    return {};
}

// Run and classify.
template <class F>
std::string outcome(F f)
{
    const char *ex = nullptr;
    try {
        auto s = f();
        sim::harness h;
        return "ok:" + s;
    } catch (const std::bad_alloc &) {
        ex = "ex:memory";
    } catch (const cf_error &) {
        ex = "ex:cf";
    } catch (const key_error &) {
        ex = "ex:key";
    } catch (const std::overflow_error &) {
        ex = "ex:overflow";
    } catch (const std::invalid_argument &) {
        ex = "ex:invalid";
    } catch (const std::exception &e) {
        ex = typeid(e).name();
    } catch (...) {
        ex = "ex:unknown";
    }
    sim::harness h;
    return ex;
}
inline const char *fault_outcome(sim::fault_kind k)
{
    return k == sim::f_alloc ? "ex:memory" : k == sim::f_cf_throw ? "ex:cf" : k == sim::f_key_throw ? "ex:key" : "?";
}
inline std::string clip(const std::string &s)
{
    return s.size() > 300 ? s.substr(0, 300) + "..." : s;
}

// ---------------------------------------------------------------- operands
template <class P>
struct operand_cfg {
    long lo = 0, hi = 4;
    unsigned max_terms = 12;
};
template <class P>
long exp_lo(bool neg)
{
    using T = typename keyio<obake::series_key_t<P>>::T_;
    return std::is_signed_v<T> && neg ? -2 : 0;
}
struct trunc_spec {
    unsigned kind = 0;
    long deg = 0;
    std::vector<std::string> sel;
};
inline trunc_spec gen_trunc(unsigned none_num = 2)
{
    sim::harness h;
    trunc_spec t;
    t.kind = static_cast<unsigned>(sim::draw(none_num + 2u));
    t.kind = t.kind < none_num ? 0 : t.kind - none_num + 1;
    t.deg = sim::range(-1, 7);
    if (t.kind == 2) {
        auto mask = sim::draw(16);
        static const char *names[] = {"a", "b", "x", "unrelated"};
        for (unsigned i = 0; i < 4; ++i)
            if (mask & (1u << i)) t.sel.push_back(names[i]);
    }
    return t;
}
template <class P>
void apply_trunc(P &p, const trunc_spec &t)
{
    if constexpr (is_ps<P>) {
        if (t.kind == 1) obake::set_truncation(p, static_cast<std::int64_t>(t.deg));
        if (t.kind == 2) obake::set_truncation(p, static_cast<std::int64_t>(t.deg), to_ss(t.sel));
    }
}
template <class C>
void model_trunc(model<C> &m, const trunc_spec &t)
{
    if (!t.kind) return;
    std::set<std::string> sel(t.sel.begin(), t.sel.end());
    for (auto it = m.t.begin(); it != m.t.end();) {
        const long d = t.kind == 1 ? m.degree(it->first) : m.pdegree(it->first, sel);
        it = d > t.deg ? m.t.erase(it) : std::next(it);
    }
}
#endif
