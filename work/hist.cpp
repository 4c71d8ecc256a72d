// C18, C22: random histories of operations on a few series, compared with map-based models after each step.
// PARTS 8
// RELEASE 3 7
#include "inops.hpp"

namespace
{
const trunc_spec no_trunc;
std::string spec_text(const trunc_spec &t)
{
    std::string s;
    if (t.kind == 1) s = "T" + std::to_string(t.deg);
    if (t.kind == 2) {
        s = "P" + std::to_string(t.deg) + ":";
        auto v = t.sel;
        std::sort(v.begin(), v.end());
        for (const auto &x : v) s += x + ",";
    }
    return s + "|";
}
bool same_trunc(const trunc_spec &a, const trunc_spec &b)
{
    return spec_text(a) == spec_text(b);
}
bool compatible(const trunc_spec &a, const trunc_spec &b)
{
    return a.kind == 0 || b.kind == 0 || same_trunc(a, b);
}
template <class P>
trunc_spec read_trunc(const P &p)
{
    trunc_spec r;
    if constexpr (is_ps<P>) {
        const auto &t = obake::get_truncation(p);
        if (t.index() == 1) {
            r.kind = 1;
            r.deg = static_cast<long>(std::get<1>(t));
        } else if (t.index() == 2) {
            r.kind = 2;
            r.deg = static_cast<long>(std::get<2>(t).first);
            for (const auto &x : std::get<2>(t).second) r.sel.push_back(x);
        }
    }
    return r;
}
template <class P>
struct obj {
    using C = obake::series_cf_t<P>;
    P s;
    model<C> m;
    trunc_spec t;
    // The object must be what its model says.
    void verify(const char *what) const
    {
        auto got = read_checked(s, what);
        sim::harness h;
        auto d = diff(got, m);
        if (!d.empty()) sim::violation("wrong-result", std::string(what) + ": " + d);
        if constexpr (is_ps<P>) {
            auto g = trunc_text(s), w = spec_text(t);
            if (g != w) sim::violation("wrong-truncation", std::string(what) + ": the truncation is " + g + " instead of " + w);
        }
    }
    // After a failure: well formed, but with any content.
    void reread(const char *what)
    {
        if (moved_from(s)) {
            sim::probe("moved_from");
            for (;;) {
                try {
                    s = P{};
                    break;
                } catch (const std::bad_alloc &) {
                }
            }
        }
        auto got = read_checked(s, what);
        sim::harness h;
        m = std::move(got);
        t = read_trunc(s);
    }
};
long maxexp(const auto &m)
{
    long r = 0;
    for (auto &p : m.t)
        for (auto x : p.first) r = std::max(r, x < 0 ? -x : x);
    return r;
}
model<nib> narrow(const model<scf> &m)
{
    model<nib> r;
    r.ss = m.ss;
    for (auto &p : m.t) r.add(p.first, nib(p.second));
    return r;
}
template <class C>
model<C> constant(long v, const std::vector<std::string> &ss)
{
    model<C> r;
    r.ss = ss;
    const auto c = lit<C>(v);
    if (!(c == C(0))) r.t.emplace(std::vector<long>(ss.size(), 0), c);
    return r;
}
template <class C>
C cpow(const C &a, long e)
{
    C r = lit<C>(1);
    for (long i = 0; i < e; ++i) r = C(r * a);
    return r;
}
enum h_kind : unsigned {
    h_add, h_sub, h_mul, h_iadd, h_isub, h_imul, h_addc, h_mulc, h_neg, h_copy, h_move, h_swap, h_term, h_nseg, h_symset, h_clear,
    h_clearterms, h_reserve, h_filter, h_trunc, h_untrunc, h_addsym, h_trim, h_pow, h_conv, h_mixed, h_imixed, h_scalar, h_make, h_subs,
    h_diff, h_load, h_ofint, h_count_
};
const char *const h_names[] = {"f=g+h", "f=g-h", "f=g*h", "f+=g", "f-=g", "f*=g", "f+c", "f*c", "negate", "f=g", "f=move(g)", "swap", "add_term", "set_n_segments", "set_symbol_set", "clear",
                               "clear_terms", "reserve", "filter", "truncate", "unset_truncation", "add_symbols", "trim", "pow", "conversion", "mixed f+g", "mixed f+=g", "constant with symbols", "make", "subs",
                               "diff", "load", "f=integer"};

template <class P>
void reload(const P &from, P &to)
{
    std::ostringstream oss;
    {
        boost::archive::binary_oarchive ar(oss);
        ar << from;
    }
    std::istringstream iss(oss.str());
    boost::archive::binary_iarchive ar(iss);
    ar >> to;
}
template <class P, class Q>
struct history {
    using C = scf;
    using K = obake::series_key_t<P>;
    static constexpr unsigned NP = 3, NQ = 2;
    obj<P> p[NP];
    obj<Q> q[NQ];
    const obj<P> *shared = nullptr; // constant objects of others
    bool faults = false, global_faults = false;
    sim::fault_kind fk = sim::f_alloc;
    unsigned tag = 0;

    void gen()
    {
        gen_opts o;
        o.max_terms = 1u + static_cast<unsigned>(sim::draw(12));
        o.lo = exp_lo<P>(sim::chance(1, 4));
        o.hi = 3;
        const auto syms = gen_symbols(3);
        const auto t0 = gen_trunc();
        for (auto &x : p) {
            auto sy = sim::chance(1, 2) ? syms : gen_symbols(3);
            auto m = gen_model<C>(sy, o);
            x.s = build<P>(m, static_cast<unsigned>(sim::draw(4)));
            const auto tr = sim::chance(3, 4) ? t0 : gen_trunc();
            apply_trunc(x.s, tr);
            sim::harness h;
            if (is_ps<P>) {
                x.t = tr;
                model_trunc(m, tr);
            }
            x.m = std::move(m);
        }
        for (auto &x : q) {
            auto sy = sim::chance(1, 2) ? syms : gen_symbols(3);
            auto m = gen_model<nib>(sy, o);
            x.s = build<Q>(m, static_cast<unsigned>(sim::draw(4)));
            sim::harness h;
            x.m = std::move(m);
        }
    }
    // Run one step: f does it on the series; want is what the target should become (harness memory).
    // Returns false after a fault.
    template <class O, class F>
    bool apply(O &target, const char *what, bool invalid, model<typename O::C> &&want, const trunc_spec &wt, F f)
    {
        const auto fired0 = sim::fired(fk);
        if (faults && !global_faults) {
            if (sim::chance(1, 2)) {
                sim::arm_nth(fk, 1 + sim::draw(sim::chance(1, 2) ? 20 : 300));
            } else {
                sim::arm_prob(fk, 5 + sim::draw(200));
            }
        }
        const auto r = outcome([&]() {
            f();
            return std::string();
        });
        if (faults && !global_faults) sim::disarm(fk);
        const bool hit = sim::fired(fk) != fired0;
        const bool failed = hit && (r == fault_outcome(fk) || (r != "ok:" && what == h_names[h_load]));
        {
            sim::harness h;
            if (!failed && r != (invalid ? "ex:invalid" : "ok:")) {
                sim::violation("wrong-outcome", std::string(what) + " ended with " + r + " instead of " + (invalid ? "ex:invalid" : "success"));
            }
        }
        if (failed) {
            sim::probe("failed_step");
            return false;
        }
        if (!invalid) {
            sim::harness h;
            target.m = std::move(want);
            target.t = wt;
        } else {
            sim::probe("refused");
        }
        target.verify(what);
        return true;
    }
    void step()
    {
        const auto i = sim::draw(NP), j = sim::draw(NP), k = sim::draw(NP);
        auto &f = p[i];
        auto &gm = p[j], &hm = p[k];
        const bool shg = shared && sim::chance(1, 4);
        const obj<P> &g = shg ? shared[sim::draw(NP)] : gm;
        const obj<P> &hh = hm;
        // Keep sizes in bounds.
        for (auto &x : p)
            if (x.m.t.size() > 40 || maxexp(x.m) > 200) {
                x.s.clear();
                sim::harness h;
                x.m = {};
                x.t = no_trunc;
            }
        for (auto &x : q)
            if (x.m.t.size() > 40 || maxexp(x.m) > 200) {
                x.s.clear();
                sim::harness h;
                x.m = {};
                x.t = no_trunc;
            }
        unsigned op = static_cast<unsigned>(sim::draw(h_count_));
        if ((op == h_mul || op == h_imul) && g.m.t.size() * (op == h_mul ? hh.m.t.size() : f.m.t.size()) > 300) op = op == h_mul ? h_add : h_iadd;
        const bool rv = sim::chance(1, 3), rv2 = sim::chance(1, 3);
        const long c = sim::range(-3, 4);
        const unsigned n = static_cast<unsigned>(sim::draw(4));
        if (op == h_pow && g.m.t.size() > 6 && n > 2) op = h_neg;
        const auto sel = gen_symbols(3);
        const char *what = h_names[op];
        sim::probe(what);
        bool ok = true;
        model<C> w;
        trunc_spec wt;
        bool inv = false;
        auto hdo = [&](auto fn) {
            sim::harness h;
            fn();
        };
        // The objects that may have been consumed.
        bool cg = false, ch = false;
        const bool to_q = op == h_conv || op == h_mixed || op == h_imixed;
        switch (op) {
            case h_add:
            case h_sub:
            case h_mul:
                hdo([&]() {
                    inv = !compatible(g.t, hh.t);
                    wt = g.t.kind ? g.t : hh.t;
                    if (!inv) w = op == h_mul ? mmul(g.m, hh.m) : madd(g.m, hh.m, op == h_sub);
                    model_trunc(w, wt);
                });
                cg = rv && !shg;
                ch = rv2 && !(cg && &hm == &gm);
                ok = apply(f, what, inv, std::move(w), wt, [&]() {
                    if (op == h_add) {
                        f.s = cg ? (ch ? std::move(gm.s) + std::move(hm.s) : std::move(gm.s) + hh.s) : (ch ? g.s + std::move(hm.s) : g.s + hh.s);
                    } else if (op == h_sub) {
                        f.s = cg ? (ch ? std::move(gm.s) - std::move(hm.s) : std::move(gm.s) - hh.s) : (ch ? g.s - std::move(hm.s) : g.s - hh.s);
                    } else {
                        f.s = cg ? (ch ? std::move(gm.s) * std::move(hm.s) : std::move(gm.s) * hh.s) : (ch ? g.s * std::move(hm.s) : g.s * hh.s);
                    }
                });
                break;
            case h_iadd:
            case h_isub:
            case h_imul:
                hdo([&]() {
                    inv = !compatible(f.t, g.t);
                    wt = f.t.kind ? f.t : g.t;
                    if (!inv) w = op == h_imul ? mmul(f.m, g.m) : madd(f.m, g.m, op == h_isub);
                    model_trunc(w, wt);
                });
                cg = rv && !shg && &gm != &f;
                ok = apply(f, what, inv, std::move(w), wt, [&]() {
                    if (op == h_iadd) {
                        cg ? f.s += std::move(gm.s) : f.s += g.s;
                    } else if (op == h_isub) {
                        cg ? f.s -= std::move(gm.s) : f.s -= g.s;
                    } else {
                        cg ? f.s *= std::move(gm.s) : f.s *= g.s;
                    }
                });
                break;
            case h_addc:
                hdo([&]() {
                    wt = g.t;
                    w = n == 2 ? madd(constant<C>(c, g.m.ss), g.m, true) : madd(g.m, constant<C>(c, g.m.ss), n == 1 || n == 3);
                    model_trunc(w, wt);
                });
                cg = rv && !shg;
                ok = apply(f, what, false, std::move(w), wt, [&]() {
                    switch (n) {
                        case 0: f.s = cg ? std::move(gm.s) + lit<C>(c) : lit<C>(c) + g.s; break;
                        case 1: f.s = cg ? std::move(gm.s) - lit<C>(c) : g.s - lit<C>(c); break;
                        case 2: f.s = cg ? lit<C>(c) - std::move(gm.s) : lit<C>(c) - g.s; break;
                        default: {
                            P t(g.s);
                            t -= lit<C>(c);
                            f.s = std::move(t);
                        }
                    }
                });
                break;
            case h_mulc:
                hdo([&]() {
                    wt = g.t;
                    w = mmul(g.m, constant<C>(c, g.m.ss));
                });
                cg = rv && !shg;
                ok = apply(f, what, false, std::move(w), wt, [&]() {
                    switch (n) {
                        case 0: f.s = cg ? std::move(gm.s) * lit<C>(c) : g.s * lit<C>(c); break;
                        case 1: f.s = cg ? lit<C>(c) * std::move(gm.s) : lit<C>(c) * g.s; break;
                        default: {
                            P t(g.s);
                            t *= lit<C>(c);
                            f.s = std::move(t);
                        }
                    }
                });
                break;
            case h_neg:
                hdo([&]() {
                    wt = f.t;
                    w = madd(constant<C>(0, f.m.ss), f.m, true);
                });
                ok = apply(f, what, false, std::move(w), wt, [&]() {
                    if (n == 0) {
                        obake::negate(f.s);
                    } else if (n == 1) {
                        f.s = -std::move(f.s);
                    } else {
                        f.s = -std::as_const(f.s);
                    }
                });
                break;
            case h_copy:
            case h_move:
                hdo([&]() {
                    wt = g.t;
                    w = g.m;
                });
                cg = op == h_move && !shg && &gm != &f;
                ok = apply(f, what, false, std::move(w), wt, [&]() {
                    if (cg) {
                        f.s = std::move(gm.s);
                    } else if (rv) {
                        P t(g.s);
                        f.s = std::move(t);
                    } else {
                        f.s = g.s;
                    }
                });
                break;
            case h_swap:
                if (&gm != &f) {
                    using std::swap;
                    swap(f.s, gm.s);
                    {
                        sim::harness h;
                        std::swap(f.m, gm.m);
                        std::swap(f.t, gm.t);
                    }
                    gm.verify(what);
                }
                f.verify(what);
                break;
            case h_term: {
                std::vector<long> e;
                bool beyond = false;
                hdo([&]() {
                    if (f.m.t.size() && sim::chance(1, 2)) {
                        e = std::next(f.m.t.begin(), static_cast<long>(sim::draw(f.m.t.size())))->first;
                    } else {
                        for (std::size_t x = 0; x < f.m.ss.size(); ++x) e.push_back(sim::range(exp_lo<P>(true), 3));
                    }
                    w = f.m;
                    wt = f.t;
                    w.add(e, rv2 ? C(-lit<C>(c)) : lit<C>(c));
                    // NOTE: add_term() does not truncate.
                    auto t = w;
                    model_trunc(t, wt);
                    beyond = t.t.size() != w.t.size();
                });
                if (beyond) break;
                ok = apply(f, what, false, std::move(w), wt, [&]() {
                    const auto key = make_key<K>(e);
                    if (rv2) {
                        f.s.template add_term<false>(key, lit<C>(c));
                    } else if (rv) {
                        f.s.add_term(K(key), lit<C>(c));
                    } else {
                        const C cc = lit<C>(c);
                        f.s.add_term(key, cc);
                    }
                });
                break;
            }
            case h_nseg:
                hdo([&]() {
                    w.ss = f.m.ss;
                    wt = f.t;
                });
                ok = apply(f, what, false, std::move(w), wt, [&]() { f.s.set_n_segments(n + (rv ? 2 : 0)); });
                break;
            case h_symset:
                hdo([&]() {
                    inv = !f.m.t.empty();
                    w.ss = sel;
                    wt = f.t;
                });
                ok = apply(f, what, inv, std::move(w), wt, [&]() {
                    if (rv) {
                        f.s.set_symbol_set_fw(typename std::remove_cvref_t<decltype(f.s.get_symbol_set_fw())>(to_ss(sel)));
                    } else {
                        f.s.set_symbol_set(to_ss(sel));
                    }
                });
                break;
            case h_clear: ok = apply(f, what, false, std::move(w), wt, [&]() { f.s.clear(); }); break;
            case h_clearterms:
                hdo([&]() {
                    w.ss = f.m.ss;
                    wt = f.t;
                });
                ok = apply(f, what, false, std::move(w), wt, [&]() { f.s.clear_terms(); });
                break;
            case h_reserve:
                hdo([&]() {
                    w = f.m;
                    wt = f.t;
                });
                ok = apply(f, what, false, std::move(w), wt, [&]() { f.s.reserve(n * 30u); });
                break;
            case h_filter: {
                auto keep = [&](const std::vector<long> &e) {
                    long s = c;
                    for (auto x : e) s += x;
                    return (s & 1) == 0 || s > 4;
                };
                hdo([&]() {
                    w = g.m;
                    wt = g.t;
                    std::erase_if(w.t, [&](const auto &x) { return !keep(x.first); });
                });
                const auto nss = static_cast<unsigned>(g.m.ss.size());
                ok = apply(f, what, false, std::move(w), wt, [&]() {
                    auto fn = [&](const auto &t) {
                        sim::harness h;
                        return keep(keyio<K>::exps(t.first, nss));
                    };
                    if (rv) {
                        f.s = obake::filtered(g.s, fn);
                    } else {
                        f.s = g.s;
                        obake::filter(f.s, fn);
                    }
                });
                break;
            }
            case h_trunc: {
                trunc_spec t;
                do {
                    t = gen_trunc(0);
                } while (!t.kind);
                hdo([&]() {
                    w = f.m;
                    model_trunc(w, t);
                    if (is_ps<P>) wt = t;
                });
                ok = apply(f, what, false, std::move(w), wt, [&]() {
                    if constexpr (is_ps<P>) {
                        apply_trunc(f.s, t);
                    } else if (t.kind == 1) {
                        obake::truncate_degree(f.s, static_cast<std::int64_t>(t.deg));
                    } else {
                        obake::truncate_p_degree(f.s, static_cast<std::int64_t>(t.deg), to_ss(t.sel));
                    }
                });
                break;
            }
            case h_untrunc:
                hdo([&]() { w = f.m; });
                ok = apply(f, what, false, std::move(w), wt, [&]() {
                    if constexpr (is_ps<P>) obake::unset_truncation(f.s);
                });
                break;
            case h_addsym:
                hdo([&]() {
                    w = g.m.extended(merged(g.m.ss, sel));
                    wt = g.t;
                });
                ok = apply(f, what, false, std::move(w), wt, [&]() { f.s = obake::add_symbols(g.s, to_ss(sel)); });
                break;
            case h_trim:
                hdo([&]() {
                    wt = g.t;
                    std::vector<std::size_t> keep;
                    for (std::size_t x = 0; x < g.m.ss.size(); ++x)
                        if (std::any_of(g.m.t.begin(), g.m.t.end(), [x](const auto &t) { return t.first[x] != 0; })) keep.push_back(x);
                    for (auto x : keep) w.ss.push_back(g.m.ss[x]);
                    for (auto &t : g.m.t) {
                        std::vector<long> e;
                        for (auto x : keep) e.push_back(t.first[x]);
                        w.t.emplace(e, t.second);
                    }
                });
                ok = apply(f, what, false, std::move(w), wt, [&]() { f.s = obake::trim(g.s); });
                break;
            case h_pow:
                hdo([&]() {
                    wt = g.t;
                    const bool cf = g.m.t.empty() || (g.m.t.size() == 1 && std::all_of(g.m.t.begin()->first.begin(), g.m.t.begin()->first.end(), [](long x) { return x == 0; }));
                    if (g.m.t.size() == 1) {
                        w.ss = g.m.ss;
                        auto e = g.m.t.begin()->first;
                        for (auto &x : e) x *= n;
                        w.t.emplace(e, cpow(g.m.t.begin()->second, n));
                        if (w.t.begin()->second == C(0)) w.t.clear();
                    } else if (cf) {
                        // An empty series is a constant, whose power is a constant.
                        w = constant<C>(n ? 0 : 1, {});
                    } else {
                        // NOTE: with negative exponents it matters that each step truncates.
                        w = g.m;
                        if (!n) w = constant<C>(1, {});
                        for (unsigned x = 1; x < n; ++x) {
                            w = mmul(w, g.m);
                            model_trunc(w, wt);
                        }
                    }
                    model_trunc(w, wt);
                });
                if constexpr (is_ps<P>) {
                    // The same terms with another truncation, raised to the same power before.
                    if (sim::chance(1, 2)) {
                        trunc_spec t;
                        hdo([&]() {
                            if (!g.t.kind) {
                                t.kind = 1;
                                t.deg = std::numeric_limits<std::int32_t>::min();
                                for (auto &x : g.m.t) t.deg = std::max(t.deg, g.m.degree(x.first));
                                if (sim::chance(1, 2)) {
                                    t.kind = 2;
                                    t.sel = g.m.ss;
                                }
                            }
                        });
                        sim::probe("pow_with_other_truncation");
                        ok = apply(f, what, false, std::move(w), wt, [&]() {
                            P tmp(g.s);
                            if (t.kind) {
                                apply_trunc(tmp, t);
                            } else {
                                obake::unset_truncation(tmp);
                            }
                            tmp = obake::pow(tmp, n);
                            f.s = obake::pow(g.s, n);
                        });
                        break;
                    }
                }
                ok = apply(f, what, false, std::move(w), wt, [&]() { f.s = obake::pow(g.s, n); });
                break;
            case h_conv: {
                auto &y = q[sim::draw(NQ)];
                model<nib> wq;
                hdo([&]() {
                    wq = narrow(g.m);
                    wt = g.t;
                });
                cg = rv && !shg;
                ok = apply(y, what, false, std::move(wq), wt, [&]() {
                    if (cg) {
                        y.s = Q(std::move(gm.s));
                    } else {
                        y.s = Q(g.s);
                    }
                });
                if (!ok) y.reread(what);
                break;
            }
            case h_mixed:
            case h_imixed: {
                auto &y = q[sim::draw(NQ)];
                auto &z = q[sim::draw(NQ)];
                model<nib> wq;
                if (n == 2 && g.m.t.size() * z.m.t.size() > 300) break;
                hdo([&]() {
                    const auto &zz = op == h_mixed ? z : y;
                    inv = !compatible(g.t, zz.t);
                    wt = g.t.kind ? g.t : zz.t;
                    if (!inv) {
                        // NOTE: the coefficients are converted first when they are merged.
                        wq = n == 2 && op == h_mixed ? mmul(zz.m, narrow(g.m)) : madd(zz.m, narrow(g.m), n == 1);
                    }
                    model_trunc(wq, wt);
                });
                if (op == h_mixed) {
                    cg = rv && !shg;
                    ok = apply(y, what, inv, std::move(wq), wt, [&]() {
                        switch (n) {
                            case 1: y.s = cg ? z.s - std::move(gm.s) : z.s - g.s; break;
                            case 2: y.s = rv2 ? g.s * z.s : z.s * g.s; break;
                            default: y.s = cg ? std::move(gm.s) + z.s : (rv2 ? z.s + g.s : g.s + z.s);
                        }
                    });
                } else {
                    cg = rv && !shg;
                    ok = apply(y, what, inv, std::move(wq), wt, [&]() {
                        if (n == 1) {
                            cg ? y.s -= std::move(gm.s) : y.s -= g.s;
                        } else {
                            cg ? y.s += std::move(gm.s) : y.s += g.s;
                        }
                    });
                }
                if (!ok || inv) y.reread(what);
                if (ok) z.verify(what);
                if (ok && sim::chance(1, 2)) sim::probe("mixed_done");
                break;
            }
            case h_scalar:
                hdo([&]() { w = constant<C>(c, sel); });
                ok = apply(f, what, false, std::move(w), wt, [&]() { f.s = P(lit<C>(c), to_ss(sel)); });
                break;
            case h_ofint:
                hdo([&]() { w = constant<C>(c, {}); });
                ok = apply(f, what, false, std::move(w), wt, [&]() {
                    if (rv) {
                        f.s = static_cast<int>(c);
                    } else {
                        f.s = P(static_cast<int>(c));
                    }
                });
                break;
            case h_make: {
                trunc_spec t;
                hdo([&]() {
                    w.ss = merged(sel, {"m", "x"});
                    for (const char *nm : {"m", "x"}) {
                        std::vector<long> e(w.ss.size(), 0);
                        e[static_cast<std::size_t>(w.sym(nm))] = 1;
                        w.t.emplace(e, lit<C>(1));
                    }
                    if (is_ps<P> && n) {
                        t.kind = n == 1 ? 1 : 2;
                        t.deg = c;
                        t.sel = sel;
                        if (n == 1) t.sel.clear();
                        wt = t;
                        model_trunc(w, wt);
                    }
                });
                ok = apply(f, what, false, std::move(w), wt, [&]() {
                    const auto ss = to_ss(merged(sel, {"m", "x"}));
                    if constexpr (is_ps<P>) {
                        if (n == 0) {
                            auto [a, b] = obake::make_p_series<P>(ss, "m", "x");
                            f.s = a + b;
                        } else if (n == 1) {
                            auto [a, b] = obake::make_p_series_t<P>(ss, c, "m", "x");
                            f.s = a + b;
                        } else {
                            auto [a, b] = obake::make_p_series_p<P>(ss, c, to_ss(sel), "m", "x");
                            f.s = a + b;
                        }
                    } else {
                        auto [a, b] = obake::make_polynomials<P>(ss, "m", "x");
                        f.s = a + b;
                    }
                });
                break;
            }
            case h_subs: {
                std::vector<std::string> who;
                bool neg = false;
                hdo([&]() {
                    for (auto &s : g.m.ss)
                        if (sim::chance(1, 2)) who.push_back(s);
                    w.ss = g.m.ss;
                    wt = g.t;
                    for (auto &t : g.m.t) {
                        auto e = t.first;
                        C cf = t.second;
                        for (std::size_t x = 0; x < e.size(); ++x)
                            if (std::find(who.begin(), who.end(), g.m.ss[x]) != who.end()) {
                                neg = neg || e[x] < 0;
                                cf *= cpow(lit<C>(c), e[x]);
                                e[x] = 0;
                            }
                        w.add(e, cf);
                    }
                    model_trunc(w, wt);
                });
                // NOTE: a negative power of an integer is not defined; and the empty sum has neither symbols nor truncation.
                if (neg || w.t.empty()) break;
                ok = apply(f, what, false, std::move(w), wt, [&]() {
                    obake::symbol_map<C> sm;
                    for (const auto &s : who) sm.emplace(s, lit<C>(c));
                    f.s = obake::subs(g.s, sm);
                });
                break;
            }
            case h_diff: {
                const std::string s = sel.empty() ? std::string("x") : sel.front();
                hdo([&]() {
                    wt = g.t;
                    w.ss = g.m.ss;
                    const auto x = g.m.sym(s);
                    if (x >= 0)
                        for (auto &t : g.m.t) {
                            auto e = t.first;
                            const long v = e[static_cast<std::size_t>(x)];
                            if (!v) continue;
                            e[static_cast<std::size_t>(x)] = v - 1;
                            w.add(e, C(t.second * lit<C>(v)));
                        }
                });
                // NOTE: how an empty derivative is represented is left open.
                if (w.t.empty()) break;
                ok = apply(f, what, false, std::move(w), wt, [&]() { f.s = obake::diff(g.s, s); });
                break;
            }
            case h_load: {
                hdo([&]() {
                    w = g.m;
                    wt = g.t;
                });
                ok = apply(f, what, false, std::move(w), wt, [&]() { reload(g.s, f.s); });
                break;
            }
        }
        if (!ok || inv) f.reread(what);
        if (cg && (&gm != &f || to_q)) gm.reread(what);
        if (ch && &hm != &f) hm.reread(what);
        // Nothing else changed.
        for (auto &x : p) x.verify(what);
        sim::harness h;
        mixstate({op, f.m.t.size(), f.s.get_s_size(), f.t.kind, g.t.kind, static_cast<std::uint64_t>(ok), inv});
    }
    void run(unsigned steps)
    {
        for (unsigned x = 0; x < steps; ++x) step();
        for (auto &x : p) x.verify("object");
        for (auto &x : q) x.verify("object");
    }
};

template <class P, class Q>
void hist_case()
{
    const auto cfg = configure(2);
    cf_bs = sim::chance(1, 2) ? 16 : 60000;
    const bool faults = sim::chance(1, 2);
    const unsigned nt = sim::chance(1, 4) ? 2u + static_cast<unsigned>(sim::draw(2)) : 1u;
    const auto fk = sim::chance(2, 3) ? sim::f_alloc : sim::f_cf_throw;
    const unsigned steps = nt > 1 ? 2 + static_cast<unsigned>(sim::draw(4)) : 2 + static_cast<unsigned>(sim::draw(12));
    std::unique_ptr<history<P, Q>> h[4];
    history<P, Q> base;
    base.gen();
    {
        // NOTE: Boost's statics are created here, in the harness's memory.
        sim::harness h;
        P tmp;
        reload(base.p[0].s, tmp);
    }
    for (unsigned t = 0; t < nt; ++t) {
        {
            sim::harness hh;
            h[t] = std::make_unique<history<P, Q>>();
        }
        h[t]->gen();
        h[t]->shared = base.p;
        h[t]->faults = faults;
        h[t]->global_faults = nt > 1;
        h[t]->fk = fk;
    }
    sim::nontrivial();
    if (nt > 1) {
        sim::probe("threads");
        if (faults) sim::arm_prob(fk, 30 + sim::draw(600));
        for (unsigned t = 0; t < nt; ++t) sim::go("user", [&h, t, steps]() { h[t]->run(steps); });
        sim::join_all();
        sim::disarm(fk);
    } else {
        h[0]->run(steps);
    }
    for (auto &x : base.p) x.verify("shared object");
    for (unsigned t = 0; t < nt; ++t) {
        h[t]->run(1);
    }
    (void)cfg;
}
} // namespace

#define POLY(K) hist_case<obake::polynomial<K, scf>, obake::polynomial<K, nib>>
#define PSER(K) hist_case<obake::p_series<K, scf>, obake::p_series<K, nib>>
#if PART == 0
SIM_WORKLOAD(hist0, "histories of operations on polynomials")
{
    POLY(pm64)();
}
#elif PART == 1
SIM_WORKLOAD(hist1, "histories of operations on polynomials")
{
    POLY(dpm2)();
}
#elif PART == 2
SIM_WORKLOAD(hist2, "histories of operations on polynomials")
{
    POLY(dpm8)();
}
#elif PART == 3
SIM_WORKLOAD(hist3, "histories of operations on polynomials (no assertions)")
{
    POLY(pm64)();
}
#elif PART == 4
SIM_WORKLOAD(psh0, "histories of operations on power series")
{
    PSER(pm64)();
}
#elif PART == 5
SIM_WORKLOAD(psh1, "histories of operations on power series")
{
    PSER(dpm2)();
}
#elif PART == 6
SIM_WORKLOAD(psh2, "histories of operations on power series")
{
    PSER(dpm8)();
}
#else
SIM_WORKLOAD(psh3, "histories of operations on power series (no assertions)")
{
    PSER(pm64)();
}
#endif
