// C09: value-producing operations under faults.
// PARTS 10
// RELEASE 6 7
#include "ops.hpp"

namespace
{
template <class P>
void val_case()
{
    const auto cfg = configure(3);
    cf_bs = sim::chance(1, 2) ? 16 : 60000;
    gen_opts o;
    o.max_terms = 1u + static_cast<unsigned>(sim::draw(14));
    o.lo = exp_lo<P>(sim::chance(1, 3));
    o.hi = 4;
    auto s1 = gen_symbols(3), s2 = sim::chance(1, 2) ? s1 : gen_symbols(3);
    using C = obake::series_cf_t<P>;
    auto m1 = gen_model<C>(s1, o), m2 = gen_model<C>(s2, o);
    P f = build<P>(m1, static_cast<unsigned>(sim::draw(4))), g = build<P>(m2, static_cast<unsigned>(sim::draw(4)));
    const auto t1 = gen_trunc(), t2 = sim::chance(2, 3) ? t1 : gen_trunc();
    apply_trunc(f, t1);
    apply_trunc(g, t2);
    const unsigned nops = 1 + static_cast<unsigned>(sim::draw(3));
    const std::string df = dump(f, "left operand"), dg = dump(g, "right operand");
    for (unsigned i = 0; i < nops; ++i) {
        const auto op = gen_op<P>();
        const auto kind = [&]() {
            const auto k = sim::draw(std::is_same_v<obake::series_key_t<P>, tkey> ? 9 : 7);
            return k < 4 ? sim::f_alloc : k < 7 ? sim::f_cf_throw : sim::f_key_throw;
        }();
        const bool clear = sim::chance(1, 2);
        if (clear) obake::customisation::internal::clear_series_pow_map();
        // In threads of their own, sometimes: nothing was computed there before.
        const bool own = sim::chance(1, 4);
        auto in_thread = [&](auto fn) {
            if (own) {
                sim::go("caller", fn);
                sim::join_all();
            } else {
                fn();
            }
        };
        std::string ref;
        std::uint64_t n = 0;
        in_thread([&]() {
            const auto b = sim::sites(kind);
            sim::arm_count(kind);
            const auto o = outcome([&]() { return do_op(op, f, g); });
            sim::disarm(kind);
            n = sim::sites(kind) - b;
            sim::harness h;
            ref = o;
        });
        const unsigned tries = 1 + static_cast<unsigned>(sim::draw(4));
        for (unsigned j = 0; j < tries; ++j) in_thread([&]() {
            if (clear) obake::customisation::internal::clear_series_pow_map();
            const bool prob = n > 0 && sim::chance(1, 5);
            const auto f0 = sim::fired(kind);
            std::string got;
            {
                if (prob) {
                    sim::arm_prob(kind, 2 + sim::draw(2 * n + 1));
                } else {
                    sim::arm_nth(kind, 1 + sim::draw(n ? n : 1));
                }
                got = outcome([&]() { return do_op(op, f, g); });
                sim::disarm(kind);
            }
            const bool hit = sim::fired(kind) != f0;
            {
                sim::harness h;
                if (got != ref && !(hit && got == fault_outcome(kind))) {
                    sim::violation(hit ? "wrong-failure" : "wrong-result", std::string(op_name(op.kind)) + (hit ? " (a fault was injected)" : "") + " gave " + clip(got) + " instead of " + clip(ref) + (hit ? std::string(" or ") + fault_outcome(kind) : ""));
                }
                if (hit) {
                    sim::nontrivial();
                    sim::probe("faulted");
                    sim::probe(op_name(op.kind));
                    if (got == ref) sim::probe("fault_absorbed");
                    else mixstate({op.kind, kind, f.get_s_size(), g.get_s_size(), n, cfg.workers});
                }
            }
            if (own) {
                const auto again = outcome([&]() { return do_op(op, f, g); });
                sim::harness h;
                if (again != ref) sim::violation("wrong-retry", std::string(op_name(op.kind)) + " gave " + clip(again) + " instead of " + clip(ref) + " after a failed attempt in the same thread");
            }
        });
        const auto again = outcome([&]() { return do_op(op, f, g); });
        {
            sim::harness h;
            if (again != ref) sim::violation("wrong-retry", std::string(op_name(op.kind)) + " gave " + clip(again) + " instead of " + clip(ref) + " after a failed attempt");
        }
        const auto nf = dump(f, "left operand"), ng = dump(g, "right operand");
        sim::harness h;
        sim::check(nf == df && ng == dg, "operand-changed", "an operand of a value-producing operation changed");
    }
}
} // namespace

#if PART == 0
SIM_WORKLOAD(val0, "value-producing operations under faults")
{
    val_case<obake::polynomial<pm64, bcf>>();
}
#elif PART == 1
SIM_WORKLOAD(val1, "value-producing operations under faults")
{
    val_case<obake::polynomial<dpm2, scf>>();
}
#elif PART == 2
SIM_WORKLOAD(val2, "value-producing operations under faults")
{
    val_case<obake::polynomial<pm64, qcf>>();
}
#elif PART == 3
SIM_WORKLOAD(val3, "value-producing operations under faults")
{
    val_case<obake::polynomial<tkey, bcf>>();
}
#elif PART == 4
SIM_WORKLOAD(val4, "value-producing operations under faults")
{
    val_case<obake::p_series<pm64, bcf>>();
}
#elif PART == 6
SIM_WORKLOAD(val6, "value-producing operations under faults (no assertions)")
{
    val_case<obake::polynomial<pm64, bcf>>();
}
#elif PART == 7
SIM_WORKLOAD(val7, "value-producing operations under faults (no assertions)")
{
    val_case<obake::p_series<dpm2, bcf>>();
}
#elif PART == 9
SIM_WORKLOAD(val9, "value-producing operations under faults (rational coefficients, several words)")
{
    val_case<obake::polynomial<dpm2, qcf>>();
}
#elif PART == 8
SIM_WORKLOAD(val8, "value-producing operations under faults (coefficients with zero divisors)")
{
    val_case<obake::polynomial<pm64, nib>>();
}
#else
SIM_WORKLOAD(val5, "value-producing operations under faults")
{
    val_case<obake::p_series<dpm2, scf>>();
}
#endif
