// C19: destroying, clearing, swapping and moving objects when no memory can be had.
// PARTS 6
// RELEASE 4 5
#include <tbb/parallel_for.h>

#include "nested.hpp"

namespace
{
struct user_error : std::runtime_error {
    user_error() : std::runtime_error("a task of the user fails") {}
};
template <class P>
struct slot {
    std::unique_ptr<P> p;
    // What it holds; only destruction and assignment are left to a moved-from object.
    std::string text;
    bool moved = false;
};
template <class P>
void rel_steps(unsigned steps, bool shared_pow)
{
    using C = obake::series_cf_t<P>;
    constexpr unsigned ns = 4;
    slot<P> s[ns];
    auto refill = [&](slot<P> &x) {
        if (!x.p) {
            x.p = std::make_unique<P>(make_random<P>());
        } else {
            // NOTE: a copy, through the other assignment.
            const P c = make_random<P>();
            *x.p = c;
        }
        x.text = text_of(*x.p, "a new object");
        x.moved = false;
    };
    auto check_all = [&](const char *what) {
        for (auto &x : s) {
            if (!x.p || x.moved) continue;
            const auto t = text_of(*x.p, what);
            sim::harness h;
            if (t != x.text) sim::violation("wrong-content", std::string(what) + ": an object holds " + clip(t) + " instead of " + clip(x.text));
        }
    };
    for (auto &x : s) refill(x);
    alignas(P) unsigned char spot[sizeof(P)];
    for (unsigned i = 0; i < steps; ++i) {
        const auto op = sim::draw(10);
        auto &a = s[sim::draw(ns)], &b = s[sim::draw(ns)];
        const bool same = &a == &b;
        if (!a.p) refill(a);
        if (!b.p) refill(b);
        if (shared_pow && !a.moved && a.p->size() < 8u) {
            if constexpr (!is_nested<P>::value) obake::pow(*a.p, 2);
        }
        // Nothing but failing allocations from here on; sometimes only most of them fail.
        if (sim::chance(3, 4)) {
            sim::arm_prob(sim::f_alloc, 1);
        } else {
            sim::arm_prob(sim::f_alloc, 1 + sim::draw(4));
        }
        const char *what = "?";
        const auto got = outcome([&]() {
            switch (op) {
                case 0:
                    what = "destructor";
                    a.p.reset();
                    break;
                case 1:
                    what = "clear()";
                    if (!a.moved) a.p->clear();
                    break;
                case 2:
                    what = "clear_terms()";
                    if (!a.moved) a.p->clear_terms();
                    break;
                case 3: {
                    what = "move construction";
                    auto *q = ::new (static_cast<void *>(spot)) P(std::move(*a.p));
                    if (!a.moved) {
                        const auto t = text_of(*q, what);
                        sim::harness h;
                        if (t != a.text) sim::violation("wrong-content", "a move construction changed the content: " + clip(t) + " instead of " + clip(a.text));
                    }
                    a.moved = true;
                    q->~P();
                    break;
                }
                case 4:
                    what = "move assignment";
                    if (!same) *b.p = std::move(*a.p);
                    break;
                case 5:
                    what = "swap()";
                    a.p->swap(*b.p);
                    break;
                case 6: {
                    what = "swap";
                    using std::swap;
                    swap(*a.p, *b.p);
                    break;
                }
                case 7:
                    what = "clear_series_pow_map()";
                    obake::customisation::internal::clear_series_pow_map();
                    break;
                case 8:
                    what = "destruction of all";
                    for (auto &x : s) x.p.reset();
                    break;
                default: {
                    // In parallel tasks, one of which may fail; or the loop does not even start.
                    what = "destruction in tasks";
                    const auto bad = sim::draw(2 * ns);
                    try {
                        sim::disarm(sim::f_alloc);
                        tbb::parallel_for(0u, ns, [&](unsigned x) {
                            if (x == bad) throw user_error();
                            sim::arm_prob(sim::f_alloc, 1);
                            s[x].p.reset();
                        });
                    } catch (const user_error &) {
                        sim::probe("cancelled_tasks");
                    } catch (const std::bad_alloc &) {
                        sim::probe("loop_out_of_memory");
                    }
                }
            }
            return std::string();
        });
        sim::disarm(sim::f_alloc);
        {
            sim::harness h;
            if (got != "ok:") sim::violation("release-failed", std::string(what) + " ended with " + got);
        }
        sim::probe(what);
        // What should be where now?
        switch (op) {
            case 1: {
                if (a.moved) break;
                sim::check(a.p->empty() && a.p->size() == 0u && a.p->get_symbol_set().empty() && a.p->begin() == a.p->end(), "wrong-content", "clear() left something behind");
                if constexpr (is_ps<P>) sim::check(trunc_text(*a.p) == trunc_text(P{}), "wrong-content", "clear() left a truncation behind");
                sim::harness h;
                a.text = text_of(*a.p, "a cleared object");
                break;
            }
            case 2: {
                if (a.moved) break;
                sim::check(a.p->empty() && a.p->size() == 0u && a.p->begin() == a.p->end(), "wrong-content", "clear_terms() left something behind");
                const auto t = text_of(*a.p, "a cleared object");
                sim::harness h;
                // NOTE: the symbols stay.
                if (t.substr(0, t.find('|')) != a.text.substr(0, a.text.find('|'))) sim::violation("wrong-content", "clear_terms() changed the symbols or the truncation");
                a.text = t;
                break;
            }
            case 4:
                if (!same) {
                    sim::harness h;
                    b.text = a.text;
                    b.moved = a.moved;
                    a.moved = true;
                }
                break;
            case 5:
            case 6:
                std::swap(a.text, b.text);
                std::swap(a.moved, b.moved);
                break;
            default:;
        }
        check_all(what);
        // A cleared or assigned object is as good as new.
        for (auto *x : {&a, &b}) {
            if (!x->p || x->moved || !sim::chance(1, 3)) continue;
            P c(*x->p);
            if constexpr (!is_nested<P>::value) {
                c.set_n_segments(static_cast<unsigned>(sim::draw(3)));
                const P d = make_random<P>();
                // NOTE: after a clear() the truncation is the default one.
                if (!is_ps<P> || trunc_text(c) == trunc_text(d)) {
                    c += d;
                    const auto t = text_of(c, "a sum"), u = text_of(d + (*x->p - *x->p), "a sum");
                    sim::harness h;
                    if (!x->p->size() && t.substr(t.find('|')) != u.substr(u.find('|'))) sim::violation("unusable", "0 + d differs from d in an object that was cleared");
                }
                *x->p = c;
            } else {
                *x->p = make_random<P>();
            }
            x->text = text_of(*x->p, "an object used again");
            sim::probe("used_again");
        }
        for (auto &x : s)
            if ((!x.p || x.moved) && sim::chance(1, 3)) refill(x);
        mixstate({op, s[0].p ? s[0].p->get_s_size() : 99u, s[1].p ? s[1].p->size() : 99u, same, s[0].moved, s[1].moved});
    }
    // The end of the scope, without memory.
    sim::arm_prob(sim::f_alloc, 1);
    for (auto &x : s) x.p.reset();
    sim::disarm(sim::f_alloc);
    (void)lit<scf>;
}
// ------------------------------------------------------------------ what is left when the process exits
template <class P>
P &static_one()
{
    static P p;
    return p;
}
template <class P>
std::vector<P> &static_many()
{
    static std::vector<P> v;
    return v;
}
template <class P>
P &thread_one()
{
    thread_local P p;
    return p;
}
template <class P>
void leave_behind()
{
    const unsigned n = 1 + static_cast<unsigned>(sim::draw(6));
    for (unsigned i = 0; i < n; ++i) {
        switch (sim::draw(6)) {
            case 0: static_one<P>() = make_random<P>(); break;
            case 1: static_many<P>().push_back(make_random<P>()); break;
            case 2: thread_one<P>() = make_random<P>(); break;
            case 3: obake::customisation::internal::clear_series_pow_map(); break;
            case 4: static_many<P>().clear(); break;
            default:
                if constexpr (!is_nested<P>::value) {
                    const P p = make_random<P>();
                    if (p.size() < 8u) obake::pow(p, 2 + static_cast<unsigned>(sim::draw(2)));
                    sim::probe("cache_left_behind");
                }
        }
    }
}
template <class P>
void rel_case()
{
    const auto cfg = configure(3);
    cf_bs = pick_bs();
    const unsigned nt = static_cast<unsigned>(sim::draw(3));
    const bool sp = sim::chance(1, 2);
    // NOTE: faults are armed process-wide: another thread's constructions fail meanwhile, so that threads release at the same time only at the end.
    const bool exit_first = sim::chance(1, 3);
    if (exit_first) leave_behind<P>();
    rel_steps<P>(2 + static_cast<unsigned>(sim::draw(6)), sp);
    // Several threads let go of what they have, at once.
    if (nt) {
        std::vector<std::vector<P>> held(nt + 1);
        const P common = make_random<P>();
        for (auto &v : held) {
            const unsigned n = 1 + static_cast<unsigned>(sim::draw(3));
            for (unsigned i = 0; i < n; ++i) v.push_back(sim::chance(1, 2) ? common : make_random<P>());
            if (sp)
                if constexpr (!is_nested<P>::value)
                    if (v[0].size() < 8u) obake::pow(v[0], 2);
        }
        sim::arm_prob(sim::f_alloc, 1 + sim::draw(3));
        auto body = [&](unsigned t) {
            auto &v = held[t];
            for (std::size_t i = 0; i < v.size(); ++i) {
                switch (sim::draw(4)) {
                    case 0: v[i].clear(); break;
                    case 1: v[i].swap(v[0]); break;
                    case 2: v[i].clear_terms(); break;
                    default: obake::customisation::internal::clear_series_pow_map();
                }
            }
            v.clear();
        };
        for (unsigned t = 1; t <= nt; ++t) sim::go("releaser", [&, t]() { body(t); });
        body(0);
        sim::join_all();
        sim::disarm(sim::f_alloc);
        sim::probe("released_by_threads");
    }
    if (!exit_first) leave_behind<P>();
    if (sim::chance(1, 3)) {
        // A thread which ends with objects of its own.
        sim::go("thread with objects", [&]() {
            thread_one<P>() = make_random<P>();
            sim::arm_prob(sim::f_alloc, 1);
        });
        sim::join_all();
        sim::disarm(sim::f_alloc);
        sim::probe("thread_local_objects");
    }
    sim::nontrivial();
    mixstate({nt, cfg.workers, sp, exit_first, cf_bs});
    // The process exits without memory.
    if (sim::chance(2, 3)) sim::arm_prob(sim::f_alloc, 1);
}
} // namespace

#if PART == 0
SIM_WORKLOAD(rel0, "releasing polynomials without memory")
{
    rel_case<obake::polynomial<pm64, bcf>>();
}
#elif PART == 1
SIM_WORKLOAD(rel1, "releasing power series without memory")
{
    rel_case<obake::p_series<pm64, scf>>();
}
#elif PART == 2
SIM_WORKLOAD(rel2, "releasing polynomials with polynomial coefficients without memory")
{
    rel_case<obake::polynomial<pm64, obake::polynomial<pm64, bcf>>>();
}
#elif PART == 3
SIM_WORKLOAD(rel3, "releasing polynomials without memory")
{
    rel_case<obake::polynomial<dpm2, scf>>();
}
#elif PART == 4
SIM_WORKLOAD(rel4, "releasing power series without memory (no assertions)")
{
    rel_case<obake::p_series<dpm2, bcf>>();
}
#else
SIM_WORKLOAD(rel5, "releasing polynomials with polynomial coefficients without memory (no assertions)")
{
    rel_case<obake::polynomial<pm64, obake::polynomial<dpm2, bcf>>>();
}
#endif
