// C10: modifying and consuming operations under faults.
// PARTS 9
// RELEASE 6 7
#include "inops.hpp"

namespace
{
template <class P>
void inp_case()
{
    const auto cfg = configure(2);
    cf_bs = sim::chance(1, 3) ? 16 : 60000;
    gen_opts o;
    o.max_terms = 1u + static_cast<unsigned>(sim::draw(12));
    o.lo = exp_lo<P>(sim::chance(1, 3));
    o.hi = 3;
    using C = obake::series_cf_t<P>;
    P s[3];
    const auto syms = gen_symbols(3);
    const auto t0 = gen_trunc();
    for (auto &p : s) {
        auto sy = sim::chance(1, 2) ? syms : gen_symbols(3);
        p = build<P>(gen_model<C>(sy, o), static_cast<unsigned>(sim::draw(3)));
        apply_trunc(p, sim::chance(3, 4) ? t0 : gen_trunc());
    }
    P &f = s[0], &x = s[2];
    const P &g = s[1];
    const auto dg = dump(g, "constant operand");
    const unsigned steps = 1 + static_cast<unsigned>(sim::draw(4));
    for (unsigned i = 0; i < steps; ++i) {
        // Keep the sizes in bounds.
        if (f.size() > 30u) f = g;
        if (x.size() > 30u) x = g;
        const auto op = gen_iop(f, g);
        const auto kind = [&]() {
            const auto k = sim::draw(std::is_same_v<obake::series_key_t<P>, tkey> ? 9 : 7);
            return k < 4 ? sim::f_alloc : k < 7 ? sim::f_cf_throw : sim::f_key_throw;
        }();
        // Copies for the reference run.
        P f2(f), x2(x);
        obake::customisation::internal::clear_series_pow_map();
        // In threads of their own, sometimes: nothing was computed there before.
        const bool own = sim::chance(1, 4);
        auto in_thread = [&](auto fn) {
            if (own) {
                sim::go("caller", fn);
                sim::join_all();
            } else {
                fn();
            }
        };
        std::string ref;
        std::uint64_t n = 0;
        in_thread([&]() {
            const auto b = sim::sites(kind);
            sim::arm_count(kind);
            const auto o = outcome([&]() {
                do_iop(op, f2, g, x2);
                return dump(f2, "reference result");
            });
            sim::disarm(kind);
            n = sim::sites(kind) - b;
            sim::harness h;
            ref = o;
        });
        obake::customisation::internal::clear_series_pow_map();
        const auto f0 = sim::fired(kind);
        std::string got;
        in_thread([&]() {
            if (n && sim::chance(1, 5)) {
                sim::arm_prob(kind, 2 + sim::draw(2 * n + 1));
            } else {
                sim::arm_nth(kind, 1 + sim::draw(n ? n : 1));
            }
            got = outcome([&]() {
                do_iop(op, f, g, x);
                sim::disarm(kind);
                return dump(f, "result");
            });
            sim::disarm(kind);
        });
        const bool hit = sim::fired(kind) != f0;
        {
            sim::harness h;
            // NOTE: a stream turns an exception of its buffer into a failure of its own, which the archive reports.
            const bool ok = got == ref || (hit && (got == fault_outcome(kind) || (op.kind == i_load && got.compare(0, 3, "ok:") != 0)));
            if (!ok) {
                sim::violation(hit ? "wrong-failure" : "wrong-result", std::string(iop_name(op.kind)) + (hit ? " (a fault was injected)" : "") + " gave " + clip(got) + " instead of " + clip(ref) + (hit ? std::string(" or ") + fault_outcome(kind) : ""));
            }
            if (hit) {
                sim::nontrivial();
                sim::probe("faulted");
                sim::probe(iop_name(op.kind));
                if (got == ref) sim::probe("fault_absorbed");
                else mixstate({op.kind, kind, f.get_s_size(), g.get_s_size(), n, cfg.workers});
            }
        }
        const auto ng = dump(g, "constant operand");
        {
            sim::harness h;
            if (ng != dg) sim::violation("operand-changed", std::string(iop_name(op.kind)) + ": the constant operand changed");
        }
        if (moved_from(f)) {
            // Only rvalue use of f itself may leave it moved from.
            if (op.kind != i_rradd && op.kind != i_rrsub && op.kind != i_rrmul) {
                sim::harness h;
                sim::violation("malformed", std::string(iop_name(op.kind)) + " failed and left its target without a consistent number of tables");
            }
            f = g;
        }
        in_thread([&]() { use(f, iop_name(op.kind)); });
        if (moved_from(x)) {
            sim::probe("moved_from_operand_reused");
            x = g;
        }
        use(x, iop_name(op.kind));
    }
}
} // namespace

#if PART == 0
SIM_WORKLOAD(inp0, "in-place operations under faults")
{
    inp_case<obake::polynomial<pm64, bcf>>();
}
#elif PART == 1
SIM_WORKLOAD(inp1, "in-place operations under faults")
{
    inp_case<obake::polynomial<dpm2, scf>>();
}
#elif PART == 2
SIM_WORKLOAD(inp2, "in-place operations under faults")
{
    inp_case<obake::polynomial<pm64, qcf>>();
}
#elif PART == 3
SIM_WORKLOAD(inp3, "in-place operations under faults")
{
    inp_case<obake::polynomial<tkey, bcf>>();
}
#elif PART == 4
SIM_WORKLOAD(inp4, "in-place operations under faults")
{
    inp_case<obake::p_series<pm64, bcf>>();
}
#elif PART == 5
SIM_WORKLOAD(inp5, "in-place operations under faults")
{
    inp_case<obake::p_series<dpm2, scf>>();
}
#elif PART == 6
SIM_WORKLOAD(inp6, "in-place operations under faults (no assertions)")
{
    inp_case<obake::polynomial<dpm2, bcf>>();
}
#elif PART == 8
SIM_WORKLOAD(inp8, "in-place operations under faults (coefficients with zero divisors)")
{
    inp_case<obake::polynomial<pm64, nib>>();
}
#else
SIM_WORKLOAD(inp7, "in-place operations under faults (no assertions)")
{
    inp_case<obake::p_series<pm64, bcf>>();
}
#endif
