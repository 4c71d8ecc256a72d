// C06: symbol sets in use by several threads.
// PARTS 5
// RELEASE 3 4
#include <mutex>

#include "inops.hpp"

namespace
{
using names_t = std::vector<std::string>;
const char *const pool[] = {"a", "b", "a_symbol_with_a_rather_long_name", "another_symbol_with_a_long_name"};
names_t gen_names()
{
    sim::harness h;
    // Few different sets, so that the same set is released and acquired all the time.
    static const unsigned masks[] = {0, 1, 2, 3, 4, 5, 6, 12, 15};
    const auto m = masks[sim::draw(9)];
    names_t r;
    for (unsigned i = 0; i < 4; ++i)
        if (m & (1u << i)) r.push_back(pool[i]);
    std::sort(r.begin(), r.end());
    return r;
}
std::string text(const names_t &v)
{
    std::string s = "{";
    for (auto &x : v) s += x + " ";
    return s + "}";
}
names_t names_of(const obake::symbol_set &s)
{
    sim::harness h;
    return names_t(s.begin(), s.end());
}
void check_names(const obake::symbol_set &s, const names_t &want, const char *what)
{
    // NOTE: read with the instrumented code, so that a concurrent modification is seen.
    bool same = s.size() == want.size();
    std::size_t i = 0;
    for (const auto &x : s) {
        if (i < want.size()) {
            same = same && x.size() == want[i].size() && x == want[i];
        }
        ++i;
    }
    same = same && i == want.size();
    if (!same) {
        sim::harness h;
        sim::violation("wrong-symbols", std::string(what) + " reports " + text(names_of(s)) + " instead of " + text(want));
    }
}

// ---------------------------------------------------------------- the flyweights themselves
struct raw {
    obake::detail::ss_fw fw;
};
void make_raw(raw &r, const obake::symbol_set &s)
{
    r.fw = s;
}

// ---------------------------------------------------------------- objects: a flyweight or a series
template <class P>
struct slot {
    std::unique_ptr<P> p;
    names_t ss;
    trunc_spec t;
};
template <class T>
const obake::detail::ss_fw &fw_of(const T &x)
{
    if constexpr (std::is_same_v<T, raw>) {
        return x.fw;
    } else {
        return x.get_symbol_set_fw();
    }
}
template <class P>
void check_slot(const P &p, const names_t &ss, const trunc_spec &t, const char *what)
{
    check_names(fw_of(p).get(), ss, what);
    if constexpr (!std::is_same_v<P, raw>) {
        check_names(p.get_symbol_set(), ss, what);
        if constexpr (is_ps<P>) {
            const auto tt = in_h([&]() {
                std::string s;
                if (t.kind == 1) s = "T" + std::to_string(t.deg);
                if (t.kind == 2) {
                    auto v = t.sel;
                    std::sort(v.begin(), v.end());
                    s = "P" + std::to_string(t.deg) + ":";
                    for (auto &x : v) s += x + ",";
                }
                return s + "|";
            });
            const auto got = in_h([&]() { return trunc_text(p); });
            sim::harness h;
            sim::check(tt == got, "wrong-truncation", std::string(what) + " reports the truncation " + got + " instead of " + tt);
        }
    }
}
const char *const opn[] = {"construction", "copy", "copy assignment", "move construction", "move assignment", "swap", "clear", "sum", "compound sum",
                           "product", "add_symbols", "trim", "load", "assignment of a shared set", "exchange with another thread", "destruction", "conversion", "truncate"};
enum : unsigned { o_make, o_copy, o_casgn, o_mctor, o_masgn, o_swap, o_clear, o_sum, o_csum, o_mul, o_addsym, o_trim, o_load, o_setfw, o_xchg, o_kill, o_conv, o_trunc, o_n };

template <class P>
struct world {
    std::mutex mx;
    std::vector<slot<P>> mail;
    std::vector<slot<P>> shared;
};
template <class P>
std::string save_bytes(const P &p, bool txt)
{
    std::ostringstream oss;
    if (txt) {
        boost::archive::text_oarchive ar(oss);
        ar << p;
    } else {
        boost::archive::binary_oarchive ar(oss);
        ar << p;
    }
    return oss.str();
}
template <class P>
void load_bytes(P &p, const std::string &s, bool txt)
{
    std::istringstream iss(s);
    if (txt) {
        boost::archive::text_iarchive ar(iss);
        ar >> p;
    } else {
        boost::archive::binary_iarchive ar(iss);
        ar >> p;
    }
}

// The plan of one step: drawn beforehand, so that threads draw nothing while they run.
struct step {
    unsigned op = 0, i = 0, j = 0, sh = 0;
    bool use_shared = false, flag = false;
    names_t names;
    trunc_spec tr;
    std::vector<std::pair<std::vector<long>, long>> terms;
};
template <class P>
step gen_step(unsigned nslots, unsigned nshared)
{
    step s;
    do {
        s.op = static_cast<unsigned>(sim::draw(o_n));
        if (std::is_same_v<P, raw>) {
            if ((s.op >= o_sum && s.op <= o_load) || s.op == o_conv || s.op == o_trunc) continue;
        } else {
            if (s.op == o_trunc && !is_ps<std::conditional_t<std::is_same_v<P, raw>, int, P>>) continue;
        }
        break;
    } while (true);
    s.i = static_cast<unsigned>(sim::draw(nslots));
    s.j = static_cast<unsigned>(sim::draw(nslots));
    s.sh = static_cast<unsigned>(sim::draw(nshared));
    s.use_shared = sim::chance(1, 2);
    s.flag = sim::chance(1, 2);
    s.names = gen_names();
    sim::harness h;
    if (s.op == o_trunc) {
        s.tr.kind = static_cast<unsigned>(sim::draw(3));
        s.tr.deg = sim::range(1, 2);
        if (s.tr.kind == 2) s.tr.sel = gen_names();
    }
    const auto nt = sim::draw(3);
    for (std::uint64_t k = 0; k < nt; ++k) {
        std::vector<long> e;
        for (std::size_t q = 0; q < s.names.size(); ++q) e.push_back(sim::chance(1, 3));
        s.terms.emplace_back(e, 1 + static_cast<long>(sim::draw(2)));
    }
    return s;
}
template <class P>
std::unique_ptr<P> make_obj(const step &s)
{
    auto p = std::make_unique<P>();
    if constexpr (std::is_same_v<P, raw>) {
        make_raw(*p, to_ss(s.names));
    } else {
        p->set_symbol_set(to_ss(s.names));
        using C = obake::series_cf_t<P>;
        for (auto &t : s.terms) p->add_term(make_key<obake::series_key_t<P>>(t.first), lit<C>(t.second));
    }
    return p;
}
template <class P>
void set_names(slot<P> &a, const names_t &n, const trunc_spec &t = {})
{
    sim::harness h;
    a.ss = n;
    a.t = t;
}
bool truncations_differ(const trunc_spec &a, const trunc_spec &b)
{
    if (!a.kind || !b.kind) return false;
    if (a.kind != b.kind || a.deg != b.deg) return true;
    return a.kind == 2 && a.sel != b.sel;
}

// One step of a thread. The slots hold objects always; the result must report what the model says.
template <class P>
void do_step(world<P> &w, std::vector<slot<P>> &own, const step &s)
{
    slot<P> &a = own[s.i];
    const bool alias = !s.use_shared && s.i == s.j;
    const slot<P> &b = s.use_shared ? w.shared[s.sh] : own[s.j];
    // The model.
    names_t bn, want, old;
    trunc_spec bt, wt, ot;
    {
        sim::harness h;
        old = a.ss;
        ot = a.t;
        bn = b.ss;
        bt = b.t;
        want = a.ss;
        wt = a.t;
        switch (s.op) {
            case o_make: want = s.names; wt = {}; break;
            case o_copy:
            case o_casgn:
            case o_load: want = bn; wt = bt; break;
            case o_clear:
            case o_mctor: // then cleared and thrown away
            case o_kill: want.clear(); wt = {}; break;
            case o_masgn:
            case o_swap:
                if (!s.use_shared) {
                    want = bn;
                    wt = bt;
                }
                break;
            case o_sum:
            case o_csum:
            case o_mul:
                want = merged(a.ss, bn);
                if (!wt.kind) wt = bt;
                break;
            case o_addsym: want = merged(a.ss, s.names); break;
            case o_setfw:
                want = bn;
                break;
            case o_trunc: wt = s.tr; break;
            default: break;
        }
    }
    const bool mismatch = (s.op == o_sum || s.op == o_csum || s.op == o_mul) && truncations_differ(ot, bt);
    if (s.op == o_xchg) {
        // NOTE: an object which waits here for another thread is used by nobody.
        std::lock_guard<std::mutex> lk(w.mx);
        slot<P> &m = w.mail[s.sh % w.mail.size()];
        a.p.swap(m.p);
        sim::harness h;
        std::swap(a.ss, m.ss);
        std::swap(a.t, m.t);
        want = a.ss;
        wt = a.t;
        old = want;
        ot = wt;
    }
    if (s.op == o_trim) {
        if constexpr (!std::is_same_v<P, raw>) {
            auto m = read_series(*a.p, "own object");
            sim::harness h;
            std::set<std::string> used;
            for (auto &t : m.t)
                for (std::size_t q = 0; q < t.first.size(); ++q)
                    if (t.first[q]) used.insert(m.ss[q]);
            want.assign(used.begin(), used.end());
        }
    }
    const auto f0 = sim::fired(sim::f_alloc);
    const auto out = outcome([&]() {
        P &x = *a.p;
        switch (s.op) {
            case o_make: a.p = make_obj<P>(s); break;
            case o_copy: {
                auto q = std::make_unique<P>(*b.p);
                a.p = std::move(q);
                break;
            }
            case o_casgn: x = *b.p; break;
            case o_mctor: {
                P q(std::move(x));
                check_slot(q, old, ot, "a move-constructed object");
                x = P();
                break;
            }
            case o_masgn:
                if (!s.use_shared && !alias) {
                    x = std::move(*own[s.j].p);
                    *own[s.j].p = P();
                }
                break;
            case o_swap:
                if (!s.use_shared && !alias) {
                    using std::swap;
                    swap(x, *own[s.j].p);
                }
                break;
            case o_clear:
                if constexpr (std::is_same_v<P, raw>) {
                    x.fw = obake::detail::ss_fw();
                } else {
                    x.clear();
                }
                break;
            case o_kill:
                if (s.flag) {
                    a.p.reset();
                    a.p = std::make_unique<P>();
                } else {
                    auto q = std::make_unique<P>();
                    a.p = std::move(q);
                }
                break;
            case o_setfw:
                if constexpr (std::is_same_v<P, raw>) {
                    x.fw = b.p->fw;
                } else {
                    if (!alias) x.clear_terms();
                    if (alias) break;
                    if (s.flag) {
                        x.set_symbol_set_fw(b.p->get_symbol_set_fw());
                    } else {
                        x.set_symbol_set(b.p->get_symbol_set());
                    }
                }
                break;
            default:
                if constexpr (!std::is_same_v<P, raw>) {
                    using C = obake::series_cf_t<P>;
                    using K = obake::series_key_t<P>;
                    switch (s.op) {
                        case o_sum: x = s.flag ? x + *b.p : *b.p - x; break;
                        case o_csum:
                            if (s.flag) {
                                x += *b.p;
                            } else {
                                x -= *b.p;
                            }
                            break;
                        case o_mul: x = x.size() * b.p->size() < 60u ? x * *b.p : x + *b.p; break;
                        case o_addsym: x = s.flag ? obake::add_symbols(x, to_ss(s.names)) : obake::add_symbols(std::move(x), to_ss(s.names)); break;
                        case o_trim: x = s.flag ? obake::trim(x) : obake::trim(std::move(x)); break;
                        case o_load: load_bytes(x, save_bytes(*b.p, s.flag), s.flag); break;
                        case o_conv: {
                            using D = std::conditional_t<std::is_same_v<C, bcf>, scf, nib>;
                            using Q = std::conditional_t<is_ps<P>, obake::p_series<K, D>, obake::polynomial<K, D>>;
                            auto q = s.flag ? Q(x) : Q(*b.p);
                            check_slot(q, s.flag ? old : bn, s.flag ? ot : bt, "a converted object");
                            break;
                        }
                        case o_trunc:
                            if constexpr (is_ps<P>) {
                                if (s.tr.kind) {
                                    apply_trunc(x, s.tr);
                                } else {
                                    obake::unset_truncation(x);
                                }
                            }
                            break;
                    }
                }
        }
        sim::harness h;
        return std::string();
    });
    const bool hit = sim::fired(sim::f_alloc) != f0;
    sim::probe(opn[s.op]);
    if (out == "ok:") {
        sim::check(!mismatch, "wrong-result", "different truncations were combined");
        set_names(a, want, wt);
        if (!s.use_shared && !alias) {
            auto &o = own[s.j];
            if (s.op == o_masgn) set_names(o, {});
            if (s.op == o_swap) set_names(o, old, ot);
        }
    } else if (mismatch) {
        if (out != "ex:invalid" && !hit) sim::violation_c("wrong-result", "different truncations were combined, another exception was thrown");
    } else {
        if (!hit) sim::violation("unexpected-failure", in_h([&]() { return std::string(opn[s.op]) + " failed without a fault: " + out; }));
        sim::probe("failed_step");
    }
    if (out != "ok:" || mismatch) {
        // An object which was moved from, or is gone, is replaced; otherwise it reports its old set, the new one or none.
        for (auto &o : own) {
            bool gone = !o.p;
            if constexpr (!std::is_same_v<P, raw>) gone = gone || moved_from(*o.p);
            if (gone) {
                sim::disarm(sim::f_alloc);
                o.p = std::make_unique<P>();
                set_names(o, {});
                continue;
            }
            const auto now = names_of(fw_of(*o.p).get());
            if (now != o.ss) {
                const bool target = &o == &a || (!s.use_shared && &o == &own[s.j]);
                sim::check(target, "wrong-symbols", "a failed operation changed the symbols of an object it does not involve");
                sim::check(now == want || now.empty() || now == old, "wrong-symbols", "after a failure an object reports a symbol set it never had");
            }
            sim::harness h;
            o.ss = now;
            if constexpr (!std::is_same_v<P, raw>) {
                if constexpr (is_ps<P>) {
                    const auto &t = obake::get_truncation(*o.p);
                    o.t = {};
                    o.t.kind = static_cast<unsigned>(t.index());
                    if (t.index() == 1) o.t.deg = static_cast<long>(std::get<1>(t));
                    if (t.index() == 2) {
                        o.t.deg = static_cast<long>(std::get<2>(t).first);
                        o.t.sel.assign(std::get<2>(t).second.begin(), std::get<2>(t).second.end());
                    }
                }
            }
        }
    }
    // What everything in reach reports now. Equal sets compare equal, whoever made them.
    for (auto &o : own) check_slot(*o.p, o.ss, o.t, "an object of the thread");
    const auto &sh = w.shared[s.sh];
    check_slot(*sh.p, sh.ss, sh.t, "a shared object");
    for (auto &o : own) {
        bool eq;
        {
            sim::harness h;
            eq = o.ss == sh.ss;
        }
        const bool e = fw_of(*o.p) == fw_of(*sh.p);
        sim::check(e == eq, "equality", eq ? "equal symbol sets compare different" : "different symbol sets compare equal");
    }
    if constexpr (!std::is_same_v<P, raw>) {
        read_series(*a.p, "an object of the thread");
    }
}

template <class P>
void ss_case()
{
    configure(1);
    cf_bs = 16;
    // Everything created once (the registry, the default instances, Boost's statics).
    {
        step s;
        {
            sim::harness h;
            s.names = {"a"};
        }
        auto p = make_obj<P>(s);
        if constexpr (!std::is_same_v<P, raw>) {
            using C = obake::series_cf_t<P>;
            using K = obake::series_key_t<P>;
            using D = std::conditional_t<std::is_same_v<C, bcf>, scf, nib>;
            using Q = std::conditional_t<is_ps<P>, obake::p_series<K, D>, obake::polynomial<K, D>>;
            Q q(*p);
            apply_trunc(*p, trunc_spec{1, 1, {}});
            q.clear();
            p->clear();
            sim::harness h;
            for (bool t : {false, true}) {
                P z;
                load_bytes(z, save_bytes(*p, t), t);
            }
        }
    }
    const unsigned nt = 1 + static_cast<unsigned>(sim::draw(4)), nown = 1 + static_cast<unsigned>(sim::draw(3)),
                   nsh = 1 + static_cast<unsigned>(sim::draw(3)), nmail = 1 + static_cast<unsigned>(sim::draw(2));
    std::vector<std::vector<step>> plan;
    std::vector<step> init_sh, init_mail;
    std::vector<std::vector<step>> init_own;
    {
        sim::harness h;
        plan.resize(nt);
        init_own.resize(nt);
        const bool same = sim::chance(1, 3);
        for (unsigned t = 0; t < nt; ++t) {
            const auto n = 1 + sim::draw(7);
            for (std::uint64_t i = 0; i < n; ++i) plan[t].push_back(gen_step<P>(nown, nsh));
            if (same && t) plan[t] = plan[0];
            for (unsigned i = 0; i < nown; ++i) init_own[t].push_back(gen_step<P>(1, 1));
        }
        for (unsigned i = 0; i < nsh; ++i) init_sh.push_back(gen_step<P>(1, 1));
        for (unsigned i = 0; i < nmail; ++i) init_mail.push_back(gen_step<P>(1, 1));
    }
    const bool faults = sim::chance(1, 4);
    const bool raceless = nt == 1;
    const auto base = sim::live_object_blocks();
    {
        // NOTE: the tables are the harness's own, the objects are not.
        std::unique_ptr<world<P>> w;
        {
            sim::harness h;
            w = std::make_unique<world<P>>();
            w->mail.resize(nmail);
            w->shared.resize(nsh);
        }
        auto fill = [](slot<P> &s, const step &st) {
            s.p = make_obj<P>(st);
            set_names(s, st.names);
        };
        for (unsigned i = 0; i < nsh; ++i) fill(w->shared[i], init_sh[i]);
        for (unsigned i = 0; i < nmail; ++i) fill(w->mail[i], init_mail[i]);
        if (faults) sim::arm_prob(sim::f_alloc, 20 + sim::draw(300));
        for (unsigned t = 0; t < nt; ++t) {
            sim::go("user", [&, t]() {
                std::vector<slot<P>> own;
                {
                    sim::harness h;
                    own.resize(nown);
                }
                for (unsigned i = 0; i < nown; ++i) {
                    const auto out = outcome([&]() {
                        fill(own[i], init_own[t][i]);
                        sim::harness h;
                        return std::string();
                    });
                    if (out != "ok:") {
                        sim::disarm(sim::f_alloc);
                        fill(own[i], init_own[t][i]);
                    }
                }
                for (auto &s : plan[t]) do_step(*w, own, s);
                for (auto &o : own) o.p.reset();
                sim::harness h;
                own.clear();
                own.shrink_to_fit();
            });
        }
        sim::join_all();
        sim::disarm(sim::f_alloc);
        for (auto &o : w->mail) check_slot(*o.p, o.ss, o.t, "an exchanged object");
        for (auto &o : w->shared) check_slot(*o.p, o.ss, o.t, "a shared object");
        for (auto &o : w->mail) o.p.reset();
        for (auto &o : w->shared) o.p.reset();
        sim::harness h;
        w.reset();
    }
    if (!raceless) sim::nontrivial();
    const auto now = sim::live_object_blocks();
    if (now != base) {
        sim::harness h;
        sim::violation("leak", now > base ? "all objects are gone, but " + std::to_string(now - base) + " blocks are still in use (a symbol set was not released)"
                                          : std::string("more was released than these objects had"));
    }
    mixstate({nt, nown, nsh, plan[0][0].op, plan[nt - 1].back().op});
}
} // namespace

#if PART == 0
SIM_WORKLOAD(ss0, "symbol set flyweights")
{
    ss_case<raw>();
}
#elif PART == 1
SIM_WORKLOAD(ss1, "symbol sets of polynomials")
{
    ss_case<obake::polynomial<pm64, bcf>>();
}
#elif PART == 2
SIM_WORKLOAD(ss2, "symbol sets of power series")
{
    ss_case<obake::p_series<pm64, scf>>();
}
#elif PART == 3
SIM_WORKLOAD(ss3, "symbol sets of polynomials (no assertions)")
{
    ss_case<obake::polynomial<dpm2, scf>>();
}
#else
SIM_WORKLOAD(ss4, "symbol sets of power series (no assertions)")
{
    ss_case<obake::p_series<dpm1, bcf>>();
}
#endif
