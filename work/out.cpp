// C14: text output of series and monomials, to healthy and failing sinks.
// PARTS 7
// RELEASE 4
#include <iomanip>

#include <fmt/format.h>

#include <obake/cf/cf_stream_insert.hpp>
#include <obake/cf/cf_tex_stream_insert.hpp>
#include <obake/key/key_stream_insert.hpp>
#include <obake/key/key_tex_stream_insert.hpp>
#include <obake/type_name.hpp>

#include "nested.hpp"
#include "sink.hpp"

// The harness's own types have no TeX form.
#ifdef NDEBUG
inline namespace release
{
#endif
template <bool B>
void tex_stream_insert(std::ostream &os, const xcf<B> &c)
{
    os << c;
}
#ifdef NDEBUG
}
#endif

namespace
{
using flags_t = std::ios_base::fmtflags;
template <class T>
std::string num(flags_t fl, T n)
{
    std::ostringstream oss;
    oss.flags(fl);
    oss << n;
    return oss.str();
}
// ---------------------------------------------------------------- the reference (harness memory)
template <class P>
std::string ref_terms(const P &p, flags_t fl, bool tex);
std::string ref_cf(const qcf &c, flags_t, bool tex)
{
    auto s = c.to_string();
    const auto q = s.find('/');
    if (!tex || q == std::string::npos) return s;
    const bool neg = s[0] == '-';
    return std::string(neg ? "-" : "") + "\\frac{" + s.substr(neg, q - neg) + "}{" + s.substr(q + 1) + "}";
}
template <bool B>
std::string ref_cf(const xcf<B> &c, flags_t fl, bool)
{
    return num(fl, static_cast<long>(c.val()));
}
template <class P>
std::string ref_trunc_tex(const P &p, flags_t fl)
{
    if constexpr (is_ps<P>) {
        const auto &t = obake::get_truncation(p);
        if (t.index() == 1) return " + \\mathcal{O}\\left( > " + num(fl, std::get<1>(t)) + " \\right)";
        if (t.index() == 2) {
            std::string s = " + \\mathcal{O}\\left( > " + num(fl, std::get<2>(t).first) + " ; ";
            bool first = true;
            for (const auto &x : std::get<2>(t).second) {
                if (!first) s += ", ";
                first = false;
                s += x;
            }
            return s + " \\right)";
        }
    }
    return "";
}
template <class P>
    requires requires(const P &p) { p._get_s_table(); }
std::string ref_cf(const P &p, flags_t fl, bool tex)
{
    auto s = ref_terms(p, fl, tex);
    if (tex) s += ref_trunc_tex(p, fl);
    if (p.size() > 1u) return (tex ? "\\left(" : "(") + s + (tex ? "\\right)" : ")");
    return s;
}
template <class T>
std::string ref_key(const std::vector<std::string> &ss, const std::vector<long> &e, flags_t fl, bool tex)
{
    std::string s, den;
    for (std::size_t i = 0; i < ss.size(); ++i) {
        if (!e[i]) continue;
        if (tex) {
            auto &t = e[i] > 0 ? s : den;
            t += "{" + ss[i] + "}";
            const long a = e[i] > 0 ? e[i] : -e[i];
            if (a != 1) t += "^{" + std::to_string(a) + "}";
        } else {
            if (!s.empty()) s += "*";
            s += ss[i];
            if (e[i] != 1) s += "**" + num(fl, static_cast<T>(e[i]));
        }
    }
    if (!den.empty()) return "\\frac{" + (s.empty() ? "1" : s) + "}{" + den + "}";
    return s.empty() ? "1" : s;
}
template <class P>
std::string ref_terms(const P &p, flags_t fl, bool tex)
{
    if (p.empty()) return "0";
    std::vector<std::string> ss;
    for (const auto &x : p.get_symbol_set()) ss.push_back(x);
    std::string r;
    unsigned n = 0;
    auto it = p.begin();
    for (; it != p.end() && n < 50; ++it, ++n) {
        if (n) r += "+";
        auto c = ref_cf(it->second, fl, tex);
        const auto k = ref_key<typename keyio<obake::series_key_t<P>>::T_>(ss, keyio<obake::series_key_t<P>>::exps(it->first, static_cast<unsigned>(ss.size())), fl, tex);
        if (k == "1") {
            if (c.size() > 2 && c.front() == '(' && c.back() == ')') c = c.substr(1, c.size() - 2);
            r += c;
        } else if (c == "1" || c == "-1") {
            r += (c == "1" ? "" : "-") + k;
        } else {
            r += c + (tex ? "" : "*") + k;
        }
    }
    if (it != p.end()) r += std::string("+") + (tex ? "\\ldots" : "...");
    std::string s;
    for (std::size_t i = 0; i < r.size(); ++i)
        if (!(r[i] == '+' && i + 1 < r.size() && r[i + 1] == '-')) s += r[i];
    return s;
}
template <class P>
std::string ref_plain(const P &p, flags_t fl)
{
    std::string s;
    if constexpr (is_ps<P>) {
        const auto &t = obake::get_truncation(p);
        s = "Series type: power series\nTruncation: none\n";
        if (t.index() == 1) s = "Series type: power series\nTruncation degree: " + num(fl, std::get<1>(t)) + "\n";
        if (t.index() == 2) s = "Series type: power series\nPartial truncation degree: " + num(fl, std::get<2>(t).first) + ", " + obake::detail::to_string(std::get<2>(t).second) + "\n";
    }
    s += "Key type: " + obake::type_name<obake::series_key_t<P>>() + "\n";
    s += "Coefficient type: " + obake::type_name<obake::series_cf_t<P>>() + "\n";
    s += "Rank: " + num(fl, obake::series_rank<P>) + "\n";
    s += "Symbol set: {";
    bool first = true;
    for (const auto &x : p.get_symbol_set()) {
        s += (first ? "'" : ", '") + x + "'";
        first = false;
    }
    s += "}\nNumber of terms: " + num(fl, p.size()) + "\n";
    return s + ref_terms(p, fl, false);
}

// ---------------------------------------------------------------- one way of printing an object
struct how {
    unsigned form = 0;
    flags_t fl{};
    unsigned width = 0;
    char fill = ' ';
};
const char *const forms[] = {"stream insertion", "TeX form", "coefficient form", "TeX coefficient form", "fmt"};
void prepare(std::ostream &os, const how &h)
{
    os.flags(h.fl);
    os.width(h.width);
    os.fill(h.fill);
}

// The printing itself is f(os), what it must give is `want` (without a width; `exact` says whether it applies).
template <class F>
void check_output(const how &h, F f, const std::string &want_, const char *what)
{
    auto run = [&](sink &sk, unsigned exc, bool prefail, std::string &ex, int &st) {
        std::ostream os(&sk);
        prepare(os, h);
        if (prefail) os.setstate(std::ios_base::failbit);
        if (!prefail && exc) os.exceptions(exc == 1 ? std::ios_base::badbit : std::ios_base::badbit | std::ios_base::failbit);
        const char *e = "";
        try {
            f(os);
        } catch (const sink_error &) {
            e = "sink";
        } catch (const std::ios_base::failure &) {
            e = "failure";
        } catch (const std::bad_alloc &) {
            e = "memory";
        } catch (const cf_error &) {
            e = "cf";
        } catch (const std::exception &x) {
            e = typeid(x).name();
        }
        st = static_cast<int>(os.rdstate());
        sim::harness hh;
        ex = e;
    };
    std::string want, ex;
    int st = 0;
    // A healthy sink first.
    {
        sink sk;
        run(sk, 0, false, ex, st);
        sim::harness hh;
        want = sk.got();
        if (!ex.empty() || st) sim::violation("spurious-failure", std::string(what) + ": printing to a healthy stream fails: " + ex);
        if (!h.width && want != want_) sim::violation("wrong-text", std::string(what) + " gives \"" + clip(want) + "\" instead of \"" + clip(want_) + "\"");
    }
    const auto judge = [&](sink &sk, bool all_or_fail, const char *fault) {
        sim::harness hh;
        const auto got = sk.got();
        if (want.compare(0, got.size(), got) != 0) sim::violation("not-a-prefix", std::string(what) + ", " + fault + ": the sink received \"" + clip(got) + "\", which is no prefix of \"" + clip(want) + "\"");
        if (got.size() < want.size()) {
            sim::probe("short_output");
            if (ex.empty() && !st) sim::violation("failure-hidden", std::string(what) + ", " + fault + ": the sink received " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " bytes, but neither an exception nor the stream says so");
        } else if (all_or_fail && (!ex.empty() || st)) {
            sim::violation("spurious-failure", std::string(what) + ", " + fault + ": everything was written, but a failure is reported");
        }
    };
    // Once more.
    const auto again = [&]() {
        sink sk;
        run(sk, 0, false, ex, st);
        sim::harness hh;
        if (!ex.empty() || st || sk.got() != want) sim::violation("wrong-text", std::string(what) + ": printed again, the object gives \"" + clip(sk.got()) + "\" instead of \"" + clip(want) + "\" (" + ex + ")");
    };
    const unsigned n = 1 + static_cast<unsigned>(sim::draw(3));
    for (unsigned i = 0; i < n; ++i) {
        const unsigned mode = static_cast<unsigned>(sim::draw(6));
        const unsigned exc = static_cast<unsigned>(sim::draw(3));
        const bool throws = sim::chance(1, 3);
        switch (mode) {
            case 0: {
                // The sink is full at any byte.
                sink sk(sim::draw(want.size() + 2), throws);
                run(sk, exc, false, ex, st);
                judge(sk, true, "full sink");
                break;
            }
            case 1: {
                // The stream is in a failed state already.
                sink sk;
                run(sk, 0, true, ex, st);
                sim::harness hh;
                sim::check(sk.got().empty(), "wrong-text", "something is written to a failed stream");
                sim::check(st != 0, "failure-hidden", "the failed state is gone");
                break;
            }
            case 2:
            case 3:
            case 4:
            default: {
                const auto k = mode == 2 ? sim::f_stream_fail : mode == 3 ? sim::f_stream_short : mode == 4 ? sim::f_cf_throw : sim::f_alloc;
                // In threads of their own, sometimes: nothing was printed there before.
                const bool own = sim::chance(1, 3);
                auto in_thread = [&](auto g) {
                    if (own) {
                        sim::go("printer", g);
                        sim::join_all();
                    } else {
                        g();
                    }
                };
                std::uint64_t ns = 0;
                in_thread([&]() {
                    const auto s0 = sim::sites(k);
                    sink sk;
                    sim::arm_count(k);
                    run(sk, 0, false, ex, st);
                    sim::disarm(k);
                    ns = sim::sites(k) - s0;
                });
                if (!ns) break;
                in_thread([&]() {
                    const auto f0 = sim::fired(k);
                    sink sk(sink::none, throws);
                    if (sim::chance(1, 6)) {
                        sim::arm_prob(k, 2 + sim::draw(10));
                    } else {
                        sim::arm_nth(k, 1 + sim::draw(ns));
                    }
                    run(sk, exc, false, ex, st);
                    sim::disarm(k);
                    const bool hit = sim::fired(k) != f0;
                    judge(sk, !hit, mode == 2 ? "failing sink" : mode == 3 ? "short write" : mode == 4 ? "failing coefficient" : "out of memory");
                    {
                        sim::harness hh;
                        if (hit && mode == 4) sim::check(!ex.empty() || st, "failure-hidden", "a coefficient fails to print, but neither an exception nor the stream says so");
                        if (hit) sim::probe(mode == 4 ? "coefficient_failed" : mode == 5 ? "out_of_memory" : "write_failed");
                    }
                    if (own) again();
                });
                break;
            }
        }
        sim::nontrivial();
    }
    again();
}
how gen_how(unsigned nforms)
{
    how h;
    h.form = static_cast<unsigned>(sim::draw(nforms));
    std::ostringstream o;
    h.fl = o.flags();
    if (sim::chance(1, 4)) {
        const auto m = sim::draw(16);
        if (m & 1u) h.fl = (h.fl & ~std::ios_base::basefield) | std::ios_base::hex;
        if (m & 2u) h.fl |= std::ios_base::showpos;
        if (m & 4u) h.fl |= std::ios_base::showbase;
        if (m & 8u) h.fl |= std::ios_base::uppercase;
    }
    if (sim::chance(1, 8)) {
        h.width = static_cast<unsigned>(sim::draw(40));
        h.fill = "* 0"[sim::draw(3)];
    }
    return h;
}
template <class P>
std::string ref_of(const P &p, const how &h)
{
    sim::harness hh;
    switch (h.form) {
        case 0: return ref_plain(p, h.fl);
        case 1: return ref_terms(p, h.fl, true) + ref_trunc_tex(p, h.fl);
        case 2: return ref_cf(p, h.fl, false);
        case 3: return ref_cf(p, h.fl, true);
        default: return ref_plain(p, std::ostringstream().flags());
    }
}
template <class P>
void print(std::ostream &os, const P &p, const how &h)
{
    switch (h.form) {
        case 0: os << p; break;
        case 1: obake::tex_stream_insert(os, p); break;
        case 2: obake::cf_stream_insert(os, p); break;
        default: obake::cf_tex_stream_insert(os, p); break;
    }
}
// fmt: the whole text or an exception.
template <class P>
void check_fmt(const P &p, const how &h)
{
    const auto want = ref_of(p, h);
    const unsigned mode = static_cast<unsigned>(sim::draw(3));
    const auto k = mode == 1 ? sim::f_cf_throw : sim::f_alloc;
    auto go = [&]() {
        return outcome([&]() {
            const auto s = fmt::format("{}", p);
            return in_h([&]() { return std::string(s); });
        });
    };
    std::uint64_t ns = 0;
    const bool own = sim::chance(1, 3);
    auto in_thread = [&](auto g) {
        if (own) {
            sim::go("formatter", g);
            sim::join_all();
        } else {
            g();
        }
    };
    auto good = [&](const std::string &o) {
        sim::harness hh;
        if (o != "ok:" + want) sim::violation("wrong-text", "fmt gives \"" + clip(o) + "\" instead of \"" + clip(want) + "\"");
    };
    in_thread([&]() {
        const auto s0 = sim::sites(k);
        sim::arm_count(k);
        const auto o = go();
        sim::disarm(k);
        ns = sim::sites(k) - s0;
        good(o);
    });
    if (mode && ns) in_thread([&]() {
        const auto f0 = sim::fired(k);
        sim::arm_nth(k, 1 + sim::draw(ns));
        const auto o = go();
        sim::disarm(k);
        sim::nontrivial();
        if (sim::fired(k) != f0) {
            sim::harness hh;
            if (o.compare(0, 3, "ok:") == 0 && o != "ok:" + want)
                sim::violation("failure-hidden", std::string(k == sim::f_alloc ? "out of memory" : "failing coefficient") + ": fmt gives \"" + clip(o) + "\" instead of \"" + clip(want) + "\", without an exception");
            if (o.compare(0, 3, "ok:") != 0) sim::probe("fmt_failed");
        }
        if (own) good(go());
    });
    good(go());
}
template <class P>
void out_case()
{
    configure(1);
    cf_bs = 16;
    cf_print_soft = sim::chance(1, 2);
    static const unsigned sz[] = {2, 10, 30, 80};
    const unsigned n = sz[sim::draw(is_nested<P>::value ? 2 : 4)];
    P x_ = make_random<P>(n, sim::chance(1, 4) ? 12 : 2, std::is_signed_v<typename keyio<obake::series_key_t<P>>::T_> && sim::chance(1, 3) ? -11 : 0);
    if constexpr (is_ps<P>) {
        // A limit whose text is long.
        using D = decltype(obake::degree(x_));
        if (sim::chance(1, 3)) {
            const D lim = std::numeric_limits<D>::max() - static_cast<D>(sim::draw(1000));
            if (sim::chance(1, 2)) {
                obake::set_truncation(x_, lim);
            } else {
                obake::set_truncation(x_, lim, to_ss(gen_symbols(3)));
            }
        }
    }
    const P x(std::move(x_));
    if (x.size() > 50u) sim::probe("more_than_50_terms");
    const auto before = text_of(x, "an object");
    if (sim::chance(1, 8)) {
        // Several threads print the same object.
        const unsigned nt = 2 + static_cast<unsigned>(sim::draw(3));
        sim::probe("threads");
        sim::nontrivial();
        const auto h0 = gen_how(4);
        const auto want = ref_of(x, h0);
        for (unsigned t = 0; t < nt; ++t) {
            sim::go("printer", [&]() {
                sink sk;
                {
                    std::ostream os(&sk);
                    how h = h0;
                    h.width = 0;
                    prepare(os, h);
                    print(os, x, h);
                    sim::check(os.good(), "spurious-failure", "printing to a healthy stream fails");
                }
                sim::harness hh;
                sim::check(sk.got() == want, "wrong-text", "printed by several threads, the object gives \"" + clip(sk.got()) + "\" instead of \"" + clip(want) + "\"");
            });
        }
        sim::join_all();
    } else {
        const auto m = 1 + sim::draw(3);
        for (std::uint64_t i = 0; i < m; ++i) {
            const auto h = gen_how(5);
            sim::probe(forms[h.form]);
            if (h.form == 4) {
                check_fmt(x, h);
            } else {
                const auto want = ref_of(x, h);
                check_output(h, [&](std::ostream &os) { print(os, x, h); }, want, forms[h.form]);
            }
            mixstate({h.form, x.size(), static_cast<std::uint64_t>(h.fl), h.width});
        }
    }
    const auto after = text_of(x, "a printed object");
    sim::harness hh;
    sim::check(before == after, "object-changed", "printing an object changed it");
}
template <class K>
void key_case()
{
    configure(1);
    const auto ss = gen_symbols(6);
    std::vector<long> e;
    {
        sim::harness hh;
        const bool neg = std::is_signed_v<typename keyio<K>::T_> && sim::chance(1, 2);
        for (std::size_t i = 0; i < ss.size(); ++i) e.push_back(sim::range(neg ? -3 : 0, 12));
    }
    const auto sset = to_ss(ss);
    const K k = make_key<K>(e);
    const auto n = 1 + sim::draw(3);
    for (std::uint64_t i = 0; i < n; ++i) {
        auto h = gen_how(2);
        const auto want = in_h([&]() { return ref_key<typename keyio<K>::T_>(ss, e, h.fl, h.form == 1); });
        check_output(
            h,
            [&](std::ostream &os) {
                if (h.form) {
                    obake::key_tex_stream_insert(os, k, sset);
                } else {
                    obake::key_stream_insert(os, k, sset);
                }
            },
            want, h.form ? "TeX form of a monomial" : "monomial");
        mixstate({h.form, ss.size(), static_cast<std::uint64_t>(h.fl), h.width});
    }
    const auto now = keyio<K>::exps(k, static_cast<unsigned>(ss.size()));
    sim::check(now == e, "object-changed", "printing a monomial changed it");
}
} // namespace

#if PART == 0
SIM_WORKLOAD(out0, "text of polynomials")
{
    out_case<obake::polynomial<pm64, scf>>();
}
#elif PART == 1
SIM_WORKLOAD(out1, "text of power series")
{
    out_case<obake::p_series<dpm2, bcf>>();
}
#elif PART == 2
SIM_WORKLOAD(out2, "text of polynomials with rational coefficients")
{
    out_case<obake::polynomial<dpm8, qcf>>();
}
#elif PART == 3
SIM_WORKLOAD(out3, "text of polynomials with polynomial coefficients")
{
    out_case<obake::polynomial<pm64, obake::polynomial<dpm1, qcf>>>();
}
#elif PART == 4
SIM_WORKLOAD(out4, "text of polynomials with power series as coefficients (no assertions)")
{
    out_case<obake::polynomial<pm64, obake::p_series<pm32, scf>>>();
}
#elif PART == 6
SIM_WORKLOAD(out6, "text of power series with 64-bit exponents")
{
    out_case<obake::p_series<dpm1, scf>>();
}
#else
SIM_WORKLOAD(out5, "text of monomials")
{
    switch (sim::draw(6)) {
        case 0: key_case<pm64>(); break;
        case 4: key_case<pm32>(); break;
        case 1: key_case<pmu64>(); break;
        case 2: key_case<dpm2>(); break;
        case 3: key_case<dpm1>(); break;
        default: key_case<dpm8>(); break;
    }
}
#endif
