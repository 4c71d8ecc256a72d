// C12: archives round-trip, torn ones never give malformed objects. C13: what was saved before a crash is recovered.
// PARTS 9
// RELEASE 2 4 8
#include <optional>
#include <variant>

#include "inops.hpp"
#include "nested.hpp"
#include "sink.hpp"

namespace
{
// ---------------------------------------------------------------- text forms
template <class T>
std::string txt(const T &x, const char *what)
{
    if constexpr (std::is_same_v<T, obake::symbol_set>) {
        sim::harness h;
        std::string s, prev;
        bool first = true;
        for (const auto &n : x) {
            if (!first && !(prev < n)) sim::violation("malformed", std::string(what) + ": a symbol set is not sorted");
            prev = n;
            first = false;
            s += std::to_string(n.size()) + ":" + n + ",";
        }
        return s;
    } else if constexpr (requires { x._container(); }) {
        sim::harness h;
        std::string s;
        for (const auto &n : x._container()) s += std::to_string(n) + ",";
        return s;
    } else if constexpr (requires { x.get_value(); }) {
        sim::harness h;
        return std::to_string(x.get_value());
    } else {
        return text_of(x, what);
    }
}
template <class T>
inline constexpr bool is_series = requires(const T &x) { x._get_s_table(); };
template <class T>
T gen_obj()
{
    if constexpr (std::is_same_v<T, obake::symbol_set>) {
        obake::symbol_set s;
        static const char *n[] = {"", " ", "a", "b c", "x\ny", "a_symbol_with_a_rather_long_name", "0", "12 34"};
        auto m = sim::draw(256);
        for (unsigned i = 0; i < 8; ++i)
            if (m & (1u << i)) s.insert(n[i]);
        if (sim::chance(1, 8)) {
            std::string z(1, '\0');
            s.insert(z + "\xff");
        }
        return s;
    } else if constexpr (is_series<T>) {
        static const unsigned sz[] = {3, 9, 15, 40};
        const unsigned n = sz[sim::draw(is_nested<T>::value ? 2 : 4)];
        if (sim::chance(1, 4)) return make_random<T>(n, 400, std::is_signed_v<typename keyio<obake::series_key_t<T>>::T_> ? -400 : 0);
        return make_random<T>(n, 3, 0);
    } else {
        std::vector<long> e;
        {
            sim::harness h;
            const auto n = sim::draw(6);
            for (std::uint64_t i = 0; i < n; ++i) e.push_back(sim::range(std::is_same_v<T, pmu64> ? 0 : -9, 20));
        }
        return make_key<T>(e);
    }
}
// A well-formed object can be used.
template <class T>
void use_obj(T &x, const char *what)
{
    const auto before = txt(x, what);
    {
        T c(x);
        sim::check(c == x && !(c != x), "unusable", "a copy of an object differs from it");
        T d(std::move(c));
        c = x;
        if constexpr (is_series<T>) {
            using C = obake::series_cf_t<T>;
            c -= x;
            sim::check(c.empty(), "unusable", "f - f is not zero");
            c += x;
            c.clear();
            T e;
            e = d;
            e.clear_terms();
            e.set_symbol_set(x.get_symbol_set());
            e.set_n_segments(2);
            for (const auto &t : x) e.add_term(t.first, t.second);
            txt(e, what);
            (void)sizeof(C);
        } else if constexpr (std::is_same_v<T, obake::symbol_set>) {
            d.insert("inserted");
            txt(d, what);
        }
    }
    const auto after = txt(x, what);
    sim::harness h;
    sim::check(before == after, "unusable", "using copies of an object changed it");
}

// ---------------------------------------------------------------- saving and loading
template <class T>
void save_to(std::streambuf &sb, bool text, const T &x)
{
    std::ostream os(&sb);
    if (text) {
        boost::archive::text_oarchive ar(os);
        ar << x;
    } else {
        boost::archive::binary_oarchive ar(os);
        ar << x;
    }
}
template <class T>
void load_from(std::streambuf &sb, bool text, T &x)
{
    std::istream is(&sb);
    if (text) {
        boost::archive::text_iarchive ar(is);
        ar >> x;
    } else {
        boost::archive::binary_iarchive ar(is);
        ar >> x;
    }
}
// NOTE: Boost's statics are created here, in the harness's memory.
template <class T>
void prime()
{
    sim::harness h;
    for (bool text : {false, true}) {
        sink s;
        T x{};
        save_to(s, text, x);
        const auto b = s.got();
        source src(b.data(), b.size());
        load_from(src, text, x);
    }
}
template <class F>
std::string attempt(F f)
{
    return outcome([&]() {
        f();
        sim::harness h;
        return std::string();
    });
}

// One object: save, then load, perhaps torn or failing, then load again.
template <class T>
void ser_one(const T &x, const std::string &dx, bool faults)
{
    const bool text = sim::chance(1, 3);
    std::string bytes;
    {
        sink s;
        save_to(s, text, x);
        sim::harness h;
        bytes = s.got();
    }
    {
        const auto d = txt(x, "a saved object");
        sim::harness h;
        sim::check(d == dx, "saved-object-changed", "saving an object changed it");
    }
    // The target held anything before.
    T t = gen_obj<T>();
    const std::string dt = txt(t, "a target");
    const unsigned mode = faults ? static_cast<unsigned>(sim::draw(7)) : 0u;
    std::size_t n = bytes.size();
    const std::size_t chunk = 1 + sim::draw(sim::chance(1, 2) ? 16 : 4096);
    auto go = [&](T &into, std::size_t len) {
        source src(bytes.data(), len, chunk);
        load_from(src, text, into);
    };
    std::string out;
    bool must_throw = false, may_differ = false, hit = false;
    static const char *modes[] = {"round trip", "torn archive", "torn near the end", "failing stream", "stream that ends early", "out of memory", "coefficient failure"};
    sim::probe(modes[mode]);
    switch (mode) {
        case 0: out = attempt([&]() { go(t, n); }); break;
        case 1:
        case 2: {
            // NOTE: a text archive ends with a newline.
            const std::size_t k = mode == 1 ? sim::draw(n) : n - 1 - sim::draw(std::min<std::size_t>(n, 24));
            sim::note_fault(sim::f_stream_trunc);
            out = attempt([&]() { go(t, k); });
            must_throw = !text;
            may_differ = text;
            break;
        }
        default: {
            const auto k = mode == 3 ? sim::f_stream_fail : mode == 4 ? sim::f_stream_trunc : mode == 5 ? sim::f_alloc : sim::f_cf_throw;
            // Count the sites of a clean load.
            const auto s0 = sim::sites(k);
            {
                T c(t);
                sim::arm_count(k);
                out = attempt([&]() { go(c, n); });
                sim::disarm(k);
            }
            const auto ns = sim::sites(k) - s0;
            if (!ns) {
                out = attempt([&]() { go(t, n); });
                break;
            }
            const auto f0 = sim::fired(k);
            if (sim::chance(1, 5)) {
                sim::arm_prob(k, 1 + sim::draw(ns + 1));
            } else {
                sim::arm_nth(k, 1 + sim::draw(ns));
            }
            out = attempt([&]() { go(t, n); });
            sim::disarm(k);
            if (sim::fired(k) != f0) {
                // NOTE: what a failed allocation was for may be dispensable. The reading of a text archive
                // stops within the last token at the latest.
                must_throw = k != sim::f_alloc && (!text || k == sim::f_cf_throw);
                may_differ = text && k != sim::f_alloc;
                hit = true;
                sim::nontrivial();
            }
            break;
        }
    }
    if (mode == 1 || mode == 2) sim::nontrivial();
    const auto d = txt(t, "a loaded object");
    const std::string empty = [&]() {
        const T e{};
        return txt(e, "an empty object");
    }();
    {
        sim::harness h;
        const std::string what = std::string(modes[mode]) + (text ? ", text archive" : ", binary archive");
        if (must_throw) {
            sim::check(out != "ok:", "torn-accepted", what + ": loading does not throw, the object holds " + clip(d) + " instead of " + clip(dx));
        }
        if (out == "ok:") {
            if (d != dx && !may_differ) sim::violation("wrong-content", what + ": loaded " + clip(d) + " instead of " + clip(dx));
            if (d != dx) sim::probe("torn_text_accepted");
        } else {
            sim::check(must_throw || may_differ || hit, "spurious-failure", what + ": loading fails without a reason: " + out);
            sim::probe("failed");
            // Nothing of what could be read stays.
            if (is_series<T> || std::is_same_v<T, obake::symbol_set>) {
                if (d != dt && d != empty) sim::violation("partial-content", what + ": after a failed load the object holds " + clip(d) + ", it held " + clip(dt) + " before");
            }
        }
    }
    if (out == "ok:" && !may_differ) sim::check(t == x && x == t, "wrong-content", "a loaded object does not equal what was saved");
    use_obj(t, "a loaded object");
    // Once more, from the whole archive.
    go(t, n);
    const auto d2 = txt(t, "a reloaded object");
    {
        sim::harness h;
        sim::check(d2 == dx, "wrong-content", std::string("loading again after ") + modes[mode] + " gives " + clip(d2) + " instead of " + clip(dx));
    }
    mixstate({mode, text, n, chunk, out.size()});
}

template <class T>
void ser_case()
{
    configure(1);
    cf_bs = 16;
    prime<T>();
    const T x = gen_obj<T>();
    const std::string dx = in_h([&]() { return txt(x, "an object"); });
    if (sim::chance(1, 8)) {
        // Several threads save and load the same object, each into one of its own.
        const unsigned nt = 2 + static_cast<unsigned>(sim::draw(2));
        sim::probe("threads");
        for (unsigned i = 0; i < nt; ++i) {
            sim::go("user", [&]() { ser_one(x, dx, false); });
        }
        sim::join_all();
        sim::nontrivial();
    } else {
        const auto n = 1 + sim::draw(3);
        for (std::uint64_t i = 0; i < n; ++i) ser_one(x, dx, true);
    }
    const auto d = txt(x, "the saved object");
    sim::harness h;
    sim::check(d == dx, "saved-object-changed", "saving an object changed it");
}

// ---------------------------------------------------------------- several objects in one archive
using poly = obake::polynomial<pm64, bcf>;
using pser = obake::p_series<dpm2, scf>;
using qpoly = obake::polynomial<dpm1, qcf>;
using nest = obake::polynomial<pm64, obake::polynomial<pm32, scf>>;
struct item {
    unsigned kind = 0;
    obake::symbol_set ss;
    pm64 m;
    dpm2 dm;
    poly p;
    pser s;
    qpoly q;
    nest n;
    static constexpr unsigned nkinds = 7;
    template <class F>
    static void with(unsigned kind, F f)
    {
        switch (kind) {
            case 0: f(&item::p); break;
            case 1: f(&item::s); break;
            case 2: f(&item::q); break;
            case 3: f(&item::n); break;
            case 4: f(&item::ss); break;
            case 5: f(&item::m); break;
            default: f(&item::dm); break;
        }
    }
};
std::string item_text(const item &x, unsigned kind, const char *what)
{
    std::string r;
    item::with(kind, [&](auto mp) {
        auto s = txt(x.*mp, what);
        sim::harness h;
        r = std::move(s);
    });
    return r;
}
struct saved {
    unsigned kind = 0;
    std::string text;
    std::size_t end = 0;
};
template <class Ar>
void put(Ar &ar, const item &x, unsigned kind)
{
    item::with(kind, [&](auto mp) { ar << x.*mp; });
}
template <class Ar>
void get(Ar &ar, item &x, unsigned kind)
{
    item::with(kind, [&](auto mp) { ar >> x.*mp; });
}
// A medium behind a buffer of the process: what is still in the buffer is lost in a crash.
struct buffered : std::streambuf {
    sink &s;
    char buf[96];
    bool bad = false;
    explicit buffered(sink &s_, std::size_t n) : s(s_)
    {
        setp(buf, buf + std::min(n, sizeof(buf)));
    }
    std::size_t pending() const
    {
        return static_cast<std::size_t>(pptr() - pbase());
    }
    bool drain()
    {
        const auto n = pptr() - pbase();
        if (bad) return false;
        if (n && s.sputn(pbase(), n) != n) {
            bad = true;
            return false;
        }
        setp(pbase(), epptr());
        return true;
    }
    int_type overflow(int_type c) override
    {
        if (!drain()) return traits_type::eof();
        if (!traits_type::eq_int_type(c, traits_type::eof())) {
            *pptr() = traits_type::to_char_type(c);
            pbump(1);
        }
        return traits_type::not_eof(c);
    }
    int sync() override
    {
        return drain() ? 0 : -1;
    }
};

template <class OA, class IA>
void log_run(bool text)
{
    // What is saved: a few objects, which may change between two saves.
    item obj[2];
    auto fresh = [&](item &x, unsigned kind) {
        item::with(kind, [&](auto mp) {
            using T = std::remove_reference_t<decltype(x.*mp)>;
            x.*mp = gen_obj<T>();
        });
    };
    const unsigned n = 1 + static_cast<unsigned>(sim::draw(6));
    struct plan_t {
        unsigned who, kind;
        bool change;
    };
    std::vector<plan_t> plan;
    {
        sim::harness h;
        const bool few = sim::chance(1, 2);
        for (unsigned i = 0; i < n; ++i) plan.push_back({static_cast<unsigned>(sim::draw(2)), static_cast<unsigned>(sim::draw(few ? 2 : item::nkinds)), sim::chance(1, 2)});
    }
    for (auto &o : obj)
        for (unsigned k = 0; k < item::nkinds; ++k) fresh(o, k);
    // How the writing goes wrong.
    const unsigned mode = static_cast<unsigned>(sim::draw(6));
    static const char *modes[] = {"crash", "full disk", "failing write", "short write", "out of memory", "crash with a write buffer"};
    sim::probe(modes[mode]);
    sink med;
    std::vector<saved> log;
    std::size_t header = sink::none, reached = 0;
    bool failed = false, told = false;
    std::string why, pending;
    auto write = [&](std::streambuf &sb, bool count, auto &&pos) {
        std::ostream os(&sb);
        {
            std::optional<OA> ar;
            why = attempt([&]() { ar.emplace(os); });
            if (why != "ok:") {
                failed = told = true;
                return;
            }
            if (os) header = pos();
            for (unsigned i = 0; i < n; ++i) {
                item &x = obj[plan[i].who];
                const auto kind = plan[i].kind;
                if (count && plan[i].change && i) fresh(x, kind);
                const auto before = item_text(x, kind, "an object to be saved");
                why = attempt([&]() { put(*ar, x, kind); });
                const auto after = item_text(x, kind, "a saved object");
                {
                    sim::harness h;
                    if (before != after) sim::violation("saved-object-changed", std::string(why == "ok:" ? "saving" : "a failed save") + " changed the object");
                }
                sim::harness h;
                if (why != "ok:") {
                    failed = told = true;
                    pending = before;
                    break;
                }
                log.push_back({kind, before, pos()});
                // NOTE: a text archive may notice at its next write only; the stream knows.
                if (text && !os) {
                    failed = told = true;
                    log.pop_back();
                    break;
                }
            }
        }
        if (!os) told = true;
    };
    // A clean run first tells the size (with the same objects).
    std::size_t total = 0;
    {
        sink s0;
        std::ostream os(&s0);
        {
            OA ar(os);
            for (unsigned i = 0; i < n; ++i) put(ar, obj[plan[i].who], plan[i].kind);
        }
        total = s0.len;
    }
    auto pos = [&]() { return med.len; };
    switch (mode) {
        case 0: write(med, true, pos); break;
        case 1:
            med.limit = sim::draw(total + 2);
            med.throws = sim::chance(1, 4);
            write(med, true, pos);
            break;
        case 2:
        case 3: {
            const auto k = mode == 2 ? sim::f_stream_fail : sim::f_stream_short;
            sink s0;
            const auto c0 = sim::sites(k);
            sim::arm_count(k);
            {
                std::ostream os(&s0);
                OA ar(os);
                for (unsigned i = 0; i < n; ++i) put(ar, obj[plan[i].who], plan[i].kind);
            }
            sim::disarm(k);
            const auto ns = sim::sites(k) - c0;
            med.throws = sim::chance(1, 4);
            sim::arm_nth(k, 1 + sim::draw(ns + 1));
            write(med, false, pos);
            sim::disarm(k);
            break;
        }
        case 4: {
            const auto k = sim::f_alloc;
            sink s0;
            const auto c0 = sim::sites(k);
            {
                std::ostream os(&s0);
                OA ar(os);
                sim::arm_count(k);
                for (unsigned i = 0; i < n; ++i) put(ar, obj[plan[i].who], plan[i].kind);
                sim::disarm(k);
            }
            const auto ns = sim::sites(k) - c0;
            const auto f0 = sim::fired(k);
            if (ns) sim::arm_nth(k, 1 + sim::draw(ns));
            write(med, false, pos);
            sim::disarm(k);
            if (sim::fired(k) != f0) {
                // Saving may do without the memory; if it cannot, it says so.
                sim::probe(failed ? "failed" : "fault_absorbed");
            }
            break;
        }
        default: {
            buffered b(med, 1 + sim::draw(96));
            write(b, true, [&]() { return med.len + b.pending(); });
            break;
        }
    }
    if (med.broken) {
        sim::check(told, "failure-hidden", "the medium failed, but neither an exception nor the stream says so");
        sim::probe("failed");
    }
    if (failed && !med.broken && mode != 4) {
        sim::harness h;
        sim::violation("spurious-failure", "a save failed on a healthy medium: " + why);
    }
    // The crash: only a prefix is durable.
    std::string bytes;
    {
        sim::harness h;
        bytes = med.got();
        reached = bytes.size();
        if (mode == 0 || mode == 5) {
            std::size_t k = sim::draw(reached + 1);
            if (!log.empty() && sim::chance(1, 2)) {
                // At or next to the end of an object.
                const auto e = static_cast<std::int64_t>(log[sim::draw(log.size())].end) + sim::range(-1, 1);
                if (e >= 0 && e <= static_cast<std::int64_t>(reached)) k = static_cast<std::size_t>(e);
            }
            sim::note_fault(sim::f_crash);
            bytes.resize(k);
        }
    }
    const std::size_t K = bytes.size();
    if (K < total) sim::nontrivial();
    // Recovery, into new objects or objects which held something.
    item tgt;
    const bool dirty = sim::chance(1, 2);
    source src(bytes.data(), K, 1 + sim::draw(sim::chance(1, 2) ? 16 : 4096));
    std::istream is(&src);
    std::optional<IA> ar;
    const auto o0 = attempt([&]() { ar.emplace(is); });
    if (K < header) {
        if (!text) sim::check(o0 != "ok:", "torn-accepted", "an archive without a complete header is accepted");
        return;
    }
    if (o0 != "ok:") {
        sim::harness h;
        sim::violation("not-recoverable", "an archive whose header is complete cannot be opened: " + o0);
    }
    std::size_t got = 0;
    // NOTE: the object whose save failed was the next one.
    for (unsigned i = 0; i < n; ++i) {
        const auto kind = plan[i].kind;
        if (dirty) fresh(tgt, kind);
        const auto o = attempt([&]() { get(*ar, tgt, kind); });
        const auto t = item_text(tgt, kind, "a recovered object");
        if (i < log.size() && log[i].end <= K) {
            sim::harness h;
            const std::string nm = "object " + std::to_string(i + 1) + " of " + std::to_string(n) + " (kind " + std::to_string(kind) + ", " + (text ? "text" : "binary") + " archive)";
            if (o != "ok:") sim::violation("not-recoverable", nm + " had reached the medium, but cannot be loaded: " + o);
            if (t != log[i].text) sim::violation("wrong-content", nm + " is loaded as " + clip(t) + " instead of " + clip(log[i].text));
            ++got;
            continue;
        }
        // NOTE: a save may fail when all its bytes are written.
        if (!text && t != pending) sim::check(o != "ok:", "torn-accepted", "an object which had not reached the medium is loaded without an exception");
        item::with(kind, [&](auto mp) { use_obj(tgt.*mp, "the target of a failed load"); });
        sim::probe("torn_object");
        break;
    }
    if (got) sim::probe("recovered", got);
    mixstate({mode, text, n, got, K});
}
void log_case()
{
    configure(1);
    cf_bs = 16;
    prime<obake::symbol_set>();
    prime<pm64>();
    prime<dpm2>();
    prime<poly>();
    prime<pser>();
    prime<qpoly>();
    prime<nest>();
    if (sim::chance(1, 3)) {
        log_run<boost::archive::text_oarchive, boost::archive::text_iarchive>(true);
    } else {
        log_run<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(false);
    }
}
} // namespace

#if PART == 0
SIM_WORKLOAD(ser0, "archives: polynomials")
{
    ser_case<poly>();
}
#elif PART == 1
SIM_WORKLOAD(ser1, "archives: power series")
{
    ser_case<pser>();
}
#elif PART == 2
SIM_WORKLOAD(ser2, "archives: polynomials with rational coefficients (no assertions)")
{
    ser_case<qpoly>();
}
#elif PART == 3
SIM_WORKLOAD(ser3, "archives: polynomials with polynomial coefficients")
{
    ser_case<nest>();
}
#elif PART == 4
SIM_WORKLOAD(ser4, "archives: polynomials with power series as coefficients (no assertions)")
{
    ser_case<obake::polynomial<pm64, obake::p_series<dpm1, bcf>>>();
}
#elif PART == 5
SIM_WORKLOAD(ser5, "archives: symbol sets")
{
    ser_case<obake::symbol_set>();
}
#elif PART == 6
SIM_WORKLOAD(ser6, "archives: monomials")
{
    switch (sim::draw(4)) {
        case 0: ser_case<pm64>(); break;
        case 1: ser_case<pmu64>(); break;
        case 2: ser_case<dpm2>(); break;
        default: ser_case<dpm8>(); break;
    }
}
#elif PART == 7
SIM_WORKLOAD(log0, "several objects in one archive, crashes")
{
    log_case();
}
#else
SIM_WORKLOAD(log1, "several objects in one archive, crashes (no assertions)")
{
    log_case();
}
#endif
