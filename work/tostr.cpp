// C15: rendering of integers.
#include <cstdint>
#include <iomanip>
#include <limits>
#include <locale>
#include <new>
#include <ostream>
#include <string>
#include <type_traits>

#include <obake/cf/cf_stream_insert.hpp>
#include <obake/config.hpp>
#include <obake/detail/to_string.hpp>
#include <obake/tex_stream_insert.hpp>

#include "sink.hpp"

namespace
{
#if defined(OBAKE_HAVE_GCC_INT128)
using i128 = __int128_t;
using u128 = __uint128_t;
#else
#error "the simulation needs 128-bit integers"
#endif

// Reference: long subtraction of powers of ten.
std::string ref(bool neg, u128 v)
{
    sim::harness h;
    u128 p[39];
    p[0] = 1;
    for (int i = 1; i < 39; ++i) p[i] = p[i - 1] * 10u;
    std::string s;
    for (int i = 38; i >= 0; --i) {
        int d = 0;
        while (v >= p[i]) {
            v -= p[i];
            ++d;
        }
        if (d || !s.empty() || i == 0) s += static_cast<char>('0' + d);
    }
    return neg ? "-" + s : s;
}
template <class T>
struct lim {
    static constexpr bool sgn = T(-1) < T(0);
    static constexpr unsigned bits = sizeof(T) * 8u;
    static u128 umax()
    {
        return sgn ? (u128(1) << (bits - 1)) - 1u : (bits == 128 ? ~u128(0) : (u128(1) << bits) - 1u);
    }
};
// A value, biased to the borders: sign and magnitude.
template <class T>
void gen(bool &neg, u128 &mag)
{
    neg = false;
    const u128 mx = lim<T>::umax();
    u128 p = 1;
    switch (sim::draw(6)) {
        case 0: mag = sim::draw(12); break;
        case 1: mag = mx - sim::draw(3); break;
        case 2: // around a power of ten
            for (std::uint64_t i = sim::draw(40); i && p <= mx / 10u; --i) p *= 10u;
            mag = p + sim::draw(3);
            mag -= mag ? 1 : 0;
            break;
        case 3: // around a power of two
            mag = (u128(1) << sim::draw(lim<T>::bits)) - sim::draw(2);
            break;
        case 4: // digits all equal / zeros inside
            mag = 0;
            for (std::uint64_t i = sim::draw(40), d = sim::draw(10); i && mag <= (mx - 9) / 10u; --i) mag = mag * 10u + (i % 5 ? d : 0);
            break;
        default: mag = (u128(sim::draw(~std::uint64_t(0))) << 64) | sim::draw(~std::uint64_t(0)); mag >>= sim::draw(lim<T>::bits); break;
    }
    if (mag > mx) {
        mag = lim<T>::bits == 128 && !lim<T>::sgn ? mag : mag % (mx + 1u);
    }
    if (lim<T>::sgn && sim::chance(1, 2)) {
        neg = mag != 0;
        if (sim::chance(1, 8)) {
            neg = true;
            mag = mx + 1u;
        }
    }
}
template <class T>
T value(bool neg, u128 mag)
{
    return neg ? static_cast<T>(-static_cast<i128>(mag - 1u) - 1) : static_cast<T>(mag);
}

template <class T>
void one_string()
{
    bool neg;
    u128 mag;
    gen<T>(neg, mag);
    const T x = value<T>(neg, mag);
    const std::string want = ref(neg, mag);
    std::string s = obake::detail::to_string(x);
    sim::check(s == want, "wrong-text", "an integer is rendered as '" + s + "' instead of '" + want + "'");
    if (neg && mag > lim<T>::umax()) sim::probe("most_negative_value");
    if (want.size() > 30) sim::probe("long_values");
    // A failing allocation reaches the caller; a retry is exact.
    if (want.size() > 15) {
        bool thrown = false;
        {
            sim::armed_nth a(sim::f_alloc, 1);
            const auto b0 = sim::live_blocks();
            try {
                std::string t = obake::detail::to_string(x);
                sim::check(t == want, "wrong-text", "an integer is rendered wrongly when memory runs out");
            } catch (const std::bad_alloc &) {
                thrown = true;
                (void)b0;
            }
        }
        if (thrown) sim::probe("rendering_out_of_memory");
        std::string t = obake::detail::to_string(x);
        sim::check(t == want, "wrong-text", "a retry after a failure renders '" + t + "' instead of '" + want + "'");
    }
}
template <class T>
void one_insert()
{
    bool neg;
    u128 mag;
    gen<T>(neg, mag);
    const T x = value<T>(neg, mag);
    const std::string want = ref(neg, mag);
    const unsigned w = static_cast<unsigned>(sim::draw(50));
    const char fill = "* 0#"[sim::draw(4)];
    const unsigned adj = static_cast<unsigned>(sim::draw(4));
    const std::size_t limit = sim::chance(1, 2) ? sim::draw(50) : sink::none;
    const bool throws = sim::chance(1, 4), masked = sim::chance(1, 4), prefail = sim::chance(1, 8);
    const unsigned flags = static_cast<unsigned>(sim::draw(16));
    const bool tex = sim::chance(1, 3);
    auto insert = [&](std::ostream &os) {
        if (tex) {
            obake::tex_stream_insert(os, x);
        } else {
            obake::cf_stream_insert(os, x);
        }
    };
    if (tex) sim::probe("tex_form");
    auto run = [&](auto ins, std::string &got, int &state, std::string &ex) {
        sink sk(limit, throws);
        std::ostream os(&sk);
        os << std::setfill(fill) << std::setw(static_cast<int>(w));
        if (adj == 1) os << std::left;
        if (adj == 2) os << std::right;
        if (adj == 3) os << std::internal;
        // Formatting flags that do not apply to text.
        if (flags & 1u) os << std::hex;
        if (flags & 2u) os << std::showpos;
        if (flags & 4u) os << std::showbase;
        if (flags & 8u) os << std::uppercase;
        if (prefail) os.setstate(std::ios::failbit);
        if (masked && !prefail) os.exceptions(std::ios::failbit | std::ios::badbit);
        ex = "";
        try {
            ins(os);
        } catch (const sink_error &) {
            ex = "sink_error";
        } catch (const std::ios_base::failure &) {
            ex = "failure";
        }
        got = sk.got();
        // NOTE: the width left behind matters too: a later insertion would be padded.
        state = static_cast<int>(os.rdstate()) * 1000 + (os.good() ? static_cast<int>(os.width()) : 0);
    };
    std::string g1, g2, e1, e2;
    int s1 = 0, s2 = 0;
    run([&](std::ostream &os) { os << want; }, g1, s1, e1);
    run(insert, g2, s2, e2);
    sim::check(g1 == g2, "wrong-output", "the sink received '" + g2 + "' instead of '" + g1 + "'");
    sim::check(s1 == s2, "wrong-state", "the stream is left in another state (" + std::to_string(s2) + " instead of " + std::to_string(s1) + ") for '" + want + "'");
    sim::check(e1 == e2, "wrong-exception", "exception '" + e2 + "' instead of '" + e1 + "'");
    if (limit != sink::none) sim::probe("limited_sink");
    if (g1.size() < want.size()) sim::probe("short_output");
    // Memory runs out inside the insertion.
    if (sim::chance(1, 2)) {
        sink sk;
        std::ostream os(&sk);
        bool thrown = false;
        const auto f0 = sim::fired(sim::f_alloc);
        {
            sim::armed_nth a(sim::f_alloc, 1 + sim::draw(2));
            try {
                insert(os);
            } catch (const std::bad_alloc &) {
                thrown = true;
            }
        }
        if (sim::fired(sim::f_alloc) != f0) {
            sim::check(thrown || sk.got() == want, "silent-failure", "memory ran out but no exception reached the caller");
            sim::probe("insertion_out_of_memory");
        } else {
            sim::check(!thrown && sk.got() == want, "wrong-output", "insertion gave '" + sk.got() + "' instead of '" + want + "'");
        }
        sink sk2;
        std::ostream os2(&sk2);
        insert(os2);
        sim::check(os2.good() && sk2.got() == want, "wrong-output", "a retry gave '" + sk2.got() + "' instead of '" + want + "'");
    }
}
void any()
{
    switch (sim::draw(18)) {
        case 16: return one_string<wchar_t>();
        case 17: return sim::chance(1, 2) ? one_string<char16_t>() : one_string<char32_t>();
        case 0: return one_string<char>();
        case 1: return one_string<signed char>();
        case 2: return one_string<unsigned char>();
        case 3: return one_string<short>();
        case 4: return one_string<unsigned short>();
        case 5: return one_string<int>();
        case 6: return one_string<unsigned>();
        case 7: return one_string<long>();
        case 8: return one_string<unsigned long>();
        case 9: return one_string<long long>();
        case 10: return one_string<unsigned long long>();
        case 11: return one_string<i128>();
        case 12: return one_string<u128>();
        case 13: return one_insert<u128>();
        default: return one_insert<i128>();
    }
}
// A locale which groups digits: integers rendered through a stream's number formatting would show it.
struct grouping : std::numpunct<char> {
    char do_thousands_sep() const override
    {
        return ',';
    }
    std::string do_grouping() const override
    {
        return "\3";
    }
};
} // namespace

SIM_WORKLOAD(tostr, "rendering integers of every built-in type, alone and from several threads, with failing memory and sinks")
{
    const unsigned nthr = static_cast<unsigned>(sim::draw(3));
    if (sim::chance(1, 4)) {
        sim::harness h;
        std::locale::global(std::locale(std::locale::classic(), new grouping));
        sim::probe("grouping_locale");
    }
    if (nthr) {
        // Concurrent rendering: no faults (their placement would depend on other threads), each thread its own values.
        struct item {
            bool neg;
            u128 mag;
        };
        for (unsigned t = 0; t < nthr + 1; ++t) {
            item v[3];
            for (auto &x : v) gen<i128>(x.neg, x.mag);
            sim::go("renderer", [v]() {
                for (auto &x : v) {
                    const auto n = value<i128>(x.neg, x.mag);
                    const auto want = ref(x.neg, x.mag);
                    auto s = obake::detail::to_string(n);
                    sim::check(s == want, "wrong-text", "concurrently rendered as '" + s + "' instead of '" + want + "'");
                    auto u = obake::detail::to_string(static_cast<u128>(x.mag));
                    sim::check(u == ref(false, x.mag), "wrong-text", "concurrently rendered as '" + u + "'");
                    const auto l = static_cast<long>(static_cast<std::uint64_t>(x.mag) >> 1);
                    sim::check(obake::detail::to_string(l) == ref(false, static_cast<u128>(l)), "wrong-text", "concurrently rendered wrongly");
                    const auto c = static_cast<signed char>(l);
                    sim::check(obake::detail::to_string(c) == ref(c < 0, static_cast<u128>(c < 0 ? -int(c) : int(c))), "wrong-text", "concurrently rendered wrongly");
                    sink sk;
                    std::ostream os(&sk);
                    obake::cf_stream_insert(os, n);
                    sim::check(sk.got() == want, "wrong-output", "concurrently inserted as '" + sk.got() + "' instead of '" + want + "'");
                }
            });
        }
        sim::join_all();
        sim::probe("concurrent");
        sim::nontrivial();
    } else {
        const auto n = 1 + sim::draw(8);
        for (std::uint64_t i = 0; i < n; ++i) any();
        if (sim::fired(sim::f_alloc) || sim::fired(sim::f_stream_short)) sim::nontrivial();
    }
    sim::note_state(nthr * 64u + (sim::fired(sim::f_alloc) ? 1u : 0u) + (sim::fired(sim::f_stream_short) ? 2u : 0u));
}
