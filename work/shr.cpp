// C03: shared const objects used by several threads, which also work on objects of their own.
// PARTS 6
// RELEASE 5
#include "inops.hpp"

namespace
{
template <class P>
void shr_case()
{
    const auto cfg = configure(2);
    cf_bs = sim::chance(1, 3) ? 60000 : 16;
    gen_opts o;
    o.max_terms = 1u + static_cast<unsigned>(sim::draw(10));
    o.lo = exp_lo<P>(sim::chance(1, 4));
    o.hi = 3;
    using C = obake::series_cf_t<P>;
    const unsigned nobj = 2;
    P obj[nobj];
    const auto syms = gen_symbols(3);
    const auto t0 = gen_trunc();
    std::string before[nobj];
    for (unsigned i = 0; i < nobj; ++i) {
        auto sy = sim::chance(1, 2) ? syms : gen_symbols(3);
        obj[i] = build<P>(gen_model<C>(sy, o), static_cast<unsigned>(sim::draw(3)));
        apply_trunc(obj[i], sim::chance(3, 4) ? t0 : gen_trunc());
        before[i] = dump(obj[i], "shared object");
    }
    struct job {
        bool modifying = false;
        opinst v;
        iopinst m;
        unsigned i = 0, j = 0, k = 0;
        std::string got, ref;
    };
    const unsigned nt = 2 + static_cast<unsigned>(sim::draw(3));
    std::vector<std::vector<job>> jobs(nt);
    {
        sim::harness h;
        const bool same = sim::chance(1, 3); // every thread does the same
        for (unsigned t = 0; t < nt; ++t) {
            const auto n = 1 + sim::draw(3);
            for (std::uint64_t q = 0; q < n; ++q) {
                job jb;
                jb.modifying = sim::chance(1, 4);
                jb.i = static_cast<unsigned>(sim::draw(nobj));
                jb.j = static_cast<unsigned>(sim::draw(nobj));
                jb.k = static_cast<unsigned>(sim::draw(nobj));
                if (jb.modifying) {
                    jb.m = gen_iop(obj[jb.i], obj[jb.j]);
                } else {
                    jb.v = gen_op<P>();
                }
                jobs[t].push_back(std::move(jb));
            }
            if (same && t) jobs[t] = jobs[0];
        }
    }
    auto run = [&](const job &jb) {
        return outcome([&]() {
            if (!jb.modifying) return do_op(jb.v, static_cast<const P &>(obj[jb.i]), static_cast<const P &>(obj[jb.j]));
            P f(static_cast<const P &>(obj[jb.i])), x(static_cast<const P &>(obj[jb.k]));
            do_iop(jb.m, f, static_cast<const P &>(obj[jb.j]), x);
            return dump(f, "own object");
        });
    };
    const bool first = sim::chance(1, 2);
    auto refs = [&]() {
        for (auto &v : jobs)
            for (auto &jb : v) {
                auto s = run(jb);
                sim::harness h;
                jb.ref = std::move(s);
            }
    };
    if (first) refs();
    const bool faults = sim::chance(1, 4);
    const auto f0 = sim::fired(sim::f_alloc);
    if (faults) sim::arm_prob(sim::f_alloc, 20 + sim::draw(400));
    if (!first && sim::chance(1, 2)) obake::customisation::internal::clear_series_pow_map();
    for (unsigned t = 0; t < nt; ++t) {
        sim::go("user", [&, t]() {
            for (auto &jb : jobs[t]) {
                auto s = run(jb);
                sim::harness h;
                jb.got = std::move(s);
            }
        });
    }
    sim::join_all();
    sim::disarm(sim::f_alloc);
    if (!first) refs();
    const bool hit = sim::fired(sim::f_alloc) != f0;
    sim::nontrivial();
    sim::harness h;
    for (auto &v : jobs)
        for (auto &jb : v) {
            const char *nm = jb.modifying ? iop_name(jb.m.kind) : op_name(jb.v.kind);
            sim::probe(nm);
            if (jb.got != jb.ref && !(hit && jb.got == "ex:memory") && !(hit && jb.modifying && jb.m.kind == i_load && jb.got.compare(0, 3, "ok:") != 0))
                sim::violation("wrong-result", std::string(nm) + " gave " + clip(jb.got) + " in a thread, but " + clip(jb.ref) + " alone");
        }
    for (unsigned i = 0; i < nobj; ++i) {
        const auto d = dump(obj[i], "shared object");
        sim::check(d == before[i], "operand-changed", "a shared const object changed");
    }
    mixstate({jobs[0][0].v.kind, jobs[1][0].v.kind, nt, cfg.workers});
}
} // namespace

#if PART == 0
SIM_WORKLOAD(shr0, "shared const objects")
{
    shr_case<obake::polynomial<pm64, bcf>>();
}
#elif PART == 1
SIM_WORKLOAD(shr1, "shared const objects")
{
    shr_case<obake::polynomial<dpm2, scf>>();
}
#elif PART == 2
SIM_WORKLOAD(shr2, "shared const objects")
{
    shr_case<obake::polynomial<pm64, qcf>>();
}
#elif PART == 3
SIM_WORKLOAD(shr3, "shared const objects")
{
    shr_case<obake::p_series<pm64, bcf>>();
}
#elif PART == 4
SIM_WORKLOAD(shr4, "shared const objects")
{
    shr_case<obake::p_series<dpm2, scf>>();
}
#else
SIM_WORKLOAD(shr5, "shared const objects (no assertions)")
{
    shr_case<obake::polynomial<dpm2, bcf>>();
}
#endif
