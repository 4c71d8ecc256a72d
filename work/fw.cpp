// C07: process-wide per-type storage.
#include <cstddef>
#include <cstring>
#include <iostream>
#include <new>
#include <string>
#include <typeinfo>
#include <utility>
#include <vector>

#include <obake/detail/fw_utils.hpp>

#include <sim.hpp>

namespace
{
constexpr int NT = 24;
struct counters {
    int ctor = 0, dtor = 0, asked = 0;
    const void *addr = nullptr, *destroyed = nullptr;
};
counters cnt[NT];
constexpr std::size_t first_sizes[6] = {1, 8, 24, 200, 4096, 40};
constexpr std::size_t size_of(int i)
{
    return i < 6 ? first_sizes[i] : static_cast<std::size_t>(7 * i - 35);
}

template <int I>
struct item {
    // Filled by the constructor, byte by byte: an incompletely built object is visible.
    unsigned char data[size_of(I)];
    item()
    {
        {
            sim::harness h;
            ++cnt[I].ctor;
            if (cnt[I].addr && cnt[I].addr != this) sim::violation_c("two-instances", "a second instance is constructed");
            cnt[I].addr = this;
        }
        for (std::size_t i = 0; i < sizeof(data); i += 1 + sizeof(data) / 16) {
            data[i] = static_cast<unsigned char>(i * 7 + I + 1);
            if (i == 0) sim::yield();
        }
    }
    void check()
    {
        for (std::size_t i = 0; i < sizeof(data); i += 1 + sizeof(data) / 16) {
            if (data[i] != static_cast<unsigned char>(i * 7 + I + 1)) sim::violation_c("half-built", "an instance was handed out before it was fully constructed (or it was overwritten)");
        }
    }
    ~item()
    {
        sim::harness h;
        ++cnt[I].dtor;
        if (cnt[I].destroyed) sim::violation_c("destroyed-twice", "an instance is destroyed twice");
        cnt[I].destroyed = this;
        check();
        for (auto &b : data) b = 0xee;
    }
};

// What a second shared library has: its own copy of fw_holder_class<C>::get() and of the static in it.
template <class C, int Lib>
C &other_lib_get()
{
    static C &r = obake::detail::fw_holder_class<C>::impl();
    return r;
}

template <int I>
void use(unsigned lib, bool retry)
{
    using C = item<I>;
    auto g = [&]() -> C & {
        switch (lib) {
            case 0: return obake::detail::fw_holder_class<C>::get();
            case 1: return other_lib_get<C, 1>();
            default: return other_lib_get<C, 2>();
        }
    };
    for (int k = 0;; ++k) {
        const auto f0 = sim::fired(sim::f_alloc);
        try {
            C &c = g();
            {
                sim::harness h;
                if (cnt[I].destroyed) sim::violation_c("use-after-destruction", "an already destroyed instance was handed out");
                ++cnt[I].asked;
                if (cnt[I].addr != &c) sim::violation_c("two-instances", "callers got different instances of the same type");
            }
            c.check();
            return;
        } catch (const std::bad_alloc &) {
            if (sim::fired(sim::f_alloc) == f0 && sim::fired(sim::f_alloc) == 0) sim::violation_c("spurious-failure", "bad_alloc without a failed allocation");
            sim::probe("creation_failed");
            if (!retry) return;
            if (k == 3) sim::disarm(sim::f_alloc); // memory is available again
            if (k > 8) sim::violation_c("no-retry", "the request keeps failing although memory is available");
        }
    }
}
template <int... Is>
void use_any_impl(int i, unsigned lib, bool retry, std::integer_sequence<int, Is...>)
{
    static constexpr void (*f[])(unsigned, bool) = {&use<Is>...};
    f[i](lib, retry);
}
void use_any(int i, unsigned lib, bool retry)
{
    use_any_impl(i, lib, retry, std::make_integer_sequence<int, NT>{});
}

// The raw interface, with types of its own.
void at_end()
{
    for (int i = 0; i < NT; ++i) {
        if (cnt[i].ctor > 1) sim::violation_c("constructed-twice", "an instance was constructed twice");
        if (cnt[i].dtor != cnt[i].ctor) sim::violation_c("not-destroyed", "an instance was not destroyed at exit");
        if (cnt[i].asked && !cnt[i].ctor) sim::violation_c("not-constructed", "an instance was handed out without construction");
        if (cnt[i].destroyed && cnt[i].destroyed != cnt[i].addr) sim::violation_c("destroyed-wrong", "something else was destroyed");
    }
}
} // namespace

// A user of the storage among the statics of the program: built before the library's, so it is destroyed after it;
// it must not touch the storage. The order of the other ones is drawn.
SIM_WORKLOAD(fw, "threads of several libraries ask for per-type storage, with failing allocations")
{
    sim::at_final(at_end);
    const unsigned nthr = static_cast<unsigned>(sim::draw(4));
    const unsigned libs = 1u + static_cast<unsigned>(sim::draw(3));
    const bool many = sim::chance(1, 4);
    const unsigned ntypes = 1u + static_cast<unsigned>(sim::draw(many ? NT : 6));
    const bool faults = sim::chance(1, 2);
    const bool prob = sim::chance(1, 3);
    if (faults) {
        if (prob) {
            sim::arm_prob(sim::f_alloc, 2 + sim::draw(4));
        } else {
            sim::arm_nth(sim::f_alloc, 1 + sim::draw(2u + 3u * ntypes));
        }
    }
    struct op {
        int type;
        unsigned lib;
    };
    auto gen = [&]() {
        sim::harness h;
        std::vector<op> v;
        const auto n = 1 + sim::draw(many ? 24 : 6);
        for (std::uint64_t i = 0; i < n; ++i) v.push_back({static_cast<int>(sim::draw(ntypes)), static_cast<unsigned>(sim::draw(libs))});
        return v;
    };
    auto body = [](const std::vector<op> &v, bool retry) {
        for (const auto &o : v) {
            use_any(o.type, o.lib, retry);
        }
    };
    const bool retry = !faults || !prob || true;
    std::vector<std::vector<op>> plans;
    {
        sim::harness h;
        for (unsigned i = 0; i <= nthr; ++i) plans.push_back(gen());
    }
    for (unsigned i = 0; i < nthr; ++i) {
        const auto *v = &plans[i];
        sim::go("user", [v, body, retry]() { body(*v, retry); });
    }
    body(plans[nthr], retry);
    sim::join_all();
    const bool fired = sim::fired(sim::f_alloc) > 0;
    sim::disarm(sim::f_alloc);
    // With memory available every request succeeds.
    for (unsigned i = 0; i < ntypes; ++i) use_any(static_cast<int>(i), static_cast<unsigned>(sim::draw(libs)), false);
    for (unsigned i = 0; i < ntypes; ++i) {
        sim::check(cnt[i].ctor == 1, "constructed-once", "the instance was not constructed exactly once");
        sim::check(cnt[i].dtor == 0, "destroyed-early", "an instance was destroyed before the process exit");
    }
    if (nthr >= 1) sim::nontrivial();
    if (fired) sim::probe("runs_with_failed_creation");
    sim::note_state(nthr * 1000003u + libs * 10007u + ntypes * 101u + fired);
    {
        sim::harness h;
        plans.clear();
        plans.shrink_to_fit();
    }
}

// The registry itself. Each simulated shared library has a type_info object of its own for every type, as shared
// libraries loaded with local visibility do: they compare equal, but neither their addresses nor their names' addresses do.
namespace raw
{
template <int I>
struct tagged {
};
} // namespace raw
namespace
{
constexpr unsigned RT = 24, RL = 3;
constexpr std::size_t raw_size(unsigned i)
{
    return i == 0 ? 1u : i * 37u % 400u + i;
}
int destroyed[RT], news[RT];
bool created[RT];
void *seen[RT];
template <int I>
void destroy(void *p)
{
    auto *b = static_cast<unsigned char *>(p);
    sim::harness h;
    if (b[0] != static_cast<unsigned char>(I + 1)) sim::violation_c("wrong-destructor", "a clean-up function got the storage of another type");
    ++destroyed[I];
}
struct rtype {
    const std::type_info *tp;
    void (*f)(void *);
};
template <int... Is>
rtype raw_type(unsigned i, unsigned lib, std::integer_sequence<int, Is...>)
{
    static constexpr void (*fs[])(void *) = {&destroy<Is>...};
    static const std::type_info *const tps[] = {&typeid(raw::tagged<Is>)...};
    struct layout {
        const void *vptr;
        const char *name;
    };
    static_assert(sizeof(layout) == sizeof(std::type_info));
    alignas(std::type_info) static unsigned char copies[RL][RT][sizeof(layout)];
    static char names[RL][RT][64];
    if (lib) {
        layout l;
        std::memcpy(&l, static_cast<const void *>(tps[i]), sizeof(l));
        if (std::strlen(l.name) >= sizeof(names[0][0])) std::abort();
        std::strcpy(names[lib][i], l.name);
        l.name = names[lib][i];
        std::memcpy(copies[lib][i], &l, sizeof(l));
        const auto *t = reinterpret_cast<const std::type_info *>(copies[lib][i]);
        if (*t != *tps[i]) std::abort();
        return {t, fs[i]};
    }
    return {tps[i], fs[i]};
}
} // namespace
SIM_WORKLOAD(fwraw, "the storage registry called directly by several threads of several libraries")
{
    sim::at_final([]() {
        for (unsigned i = 0; i < RT; ++i)
            if (destroyed[i] != (created[i] ? 1 : 0)) sim::violation_c("not-destroyed", "registered clean-up did not run exactly once");
    });
    const unsigned nthr = static_cast<unsigned>(sim::draw(4));
    const unsigned libs = 1u + static_cast<unsigned>(sim::draw(RL));
    const unsigned ntypes = sim::chance(1, 3) ? RT : 4u;
    const bool faults = sim::chance(1, 2);
    if (faults) sim::arm_nth(sim::f_alloc, 1 + sim::draw(2u * ntypes));
    static rtype types[RL][RT];
    for (unsigned l = 0; l < RL; ++l)
        for (unsigned i = 0; i < RT; ++i) types[l][i] = raw_type(i, l, std::make_integer_sequence<int, RT>{});
    auto fill = [](void *p, unsigned i) {
        for (std::size_t k = 0; k < raw_size(i); ++k) static_cast<unsigned char *>(p)[k] = static_cast<unsigned char>(i + 1);
    };
    auto body = [fill](const std::vector<unsigned> &ops) {
        for (const unsigned o : ops) {
            const unsigned i = o % RT, l = o / RT;
            try {
                auto [p, fresh] = obake::detail::fw_fetch_storage(*types[l][i].tp, raw_size(i), types[l][i].f);
                if (!p) sim::violation_c("null-storage", "null storage was returned");
                if (reinterpret_cast<std::uintptr_t>(p) % alignof(std::max_align_t)) sim::violation_c("misaligned", "misaligned storage was returned");
                // The first user owns construction: it alone may write.
                if (fresh) fill(p, i);
                sim::harness h;
                if (fresh) {
                    if (++news[i] > 1) sim::violation_c("fresh-twice", "the same type was reported as new twice");
                    created[i] = true;
                }
                if (seen[i] && seen[i] != p) sim::violation_c("two-instances", "two storages for one type");
                seen[i] = p;
                for (unsigned j = 0; j < RT; ++j)
                    if (j != i && seen[j] == p) sim::violation_c("shared-storage", "two types share storage");
            } catch (const std::bad_alloc &) {
                if (!sim::fired(sim::f_alloc)) sim::violation_c("spurious-failure", "bad_alloc without a failed allocation");
                sim::probe("creation_failed");
            }
        }
    };
    auto plan = [&]() {
        sim::harness h;
        std::vector<unsigned> v;
        for (auto n = 1u + sim::draw(2u * ntypes); n; --n) v.push_back(static_cast<unsigned>(sim::draw(ntypes) + RT * sim::draw(libs)));
        return v;
    };
    std::vector<std::vector<unsigned>> plans;
    {
        sim::harness h;
        for (unsigned i = 0; i <= nthr; ++i) plans.push_back(plan());
    }
    for (unsigned i = 0; i < nthr; ++i) {
        const auto *v = &plans[i];
        sim::go("user", [=]() { body(*v); });
    }
    body(plans[nthr]);
    sim::join_all();
    sim::disarm(sim::f_alloc);
    for (unsigned i = 0; i < ntypes; ++i) {
        // Everything can be asked for again.
        const auto &t = types[sim::draw(libs)][i];
        auto [p, fresh] = obake::detail::fw_fetch_storage(*t.tp, raw_size(i), t.f);
        if (fresh) {
            fill(p, i);
            created[i] = true;
            sim::check(++news[i] == 1, "fresh-twice", "the same type was reported as new twice");
        } else {
            sim::check(news[i] == 1, "never-fresh", "storage which nobody was told to construct was handed out as constructed");
            sim::check(seen[i] == p, "two-instances", "two storages for one type");
        }
        for (std::size_t k = 0; k < raw_size(i); ++k)
            sim::check(static_cast<unsigned char *>(p)[k] == static_cast<unsigned char>(i + 1), "overwritten", "storage was overwritten");
    }
    if (nthr) sim::nontrivial();
    if (libs > 1) sim::probe("several_libraries");
    sim::note_state((nthr * 16u + (sim::fired(sim::f_alloc) ? 1u : 0u)) * 8u + libs);
    {
        sim::harness h;
        plans.clear();
        plans.shrink_to_fit();
    }
}

// Types whose construction fails: whatever becomes of the request (by design the process ends), nobody may get the remains.
namespace
{
constexpr int FT = 3;
struct fail_state {
    int to_fail = 0, begun = 0, complete = 0, dtor = 0;
    const void *addr = nullptr;
};
fail_state fst[FT];
struct refused {
    int i;
};
template <int I>
struct fragile {
    unsigned char data[64];
    fragile()
    {
        data[0] = static_cast<unsigned char>(I + 1);
        sim::yield();
        bool f = false;
        {
            sim::harness h;
            f = fst[I].begun++ < fst[I].to_fail;
        }
        if (f) {
            sim::note_fault(sim::f_ctor);
            throw refused{I};
        }
        for (std::size_t k = 1; k < sizeof(data); ++k) data[k] = static_cast<unsigned char>(k * 3 + I);
        sim::harness h;
        if (++fst[I].complete > 1) sim::violation_c("two-instances", "a second instance is constructed");
        fst[I].addr = this;
    }
    ~fragile()
    {
        sim::harness h;
        ++fst[I].dtor;
        if (fst[I].addr != this) sim::violation_c("destroyed-wrong", "something which was never fully constructed is destroyed");
    }
};
template <int I>
void use_fragile(unsigned lib)
{
    for (int k = 0; k < 3; ++k) {
        try {
            auto &c = lib ? other_lib_get<fragile<I>, 1>() : obake::detail::fw_holder_class<fragile<I>>::get();
            for (std::size_t q = 1; q < sizeof(c.data); ++q)
                if (c.data[q] != static_cast<unsigned char>(q * 3 + I)) sim::violation_c("half-built", "an instance whose construction failed was handed out");
            sim::harness h;
            if (fst[I].addr != &c) sim::violation_c("two-instances", "callers got different instances of the same type");
            return;
        } catch (const refused &r) {
            if (r.i != I) sim::violation_c("wrong-failure", "the failure of another type's construction was reported");
            sim::probe("construction_failure_reported");
        }
    }
}
} // namespace
SIM_WORKLOAD(fwfail, "types whose construction fails")
{
    std::cerr.rdbuf(nullptr);
    sim::at_final([]() {
        for (auto &s : fst)
            if (s.dtor != s.complete) sim::violation_c("not-destroyed", "constructions and destructions differ in number");
    });
    bool any = false;
    for (auto &s : fst) {
        s.to_fail = sim::chance(1, 3) ? 1 + static_cast<int>(sim::draw(2)) : 0;
        any = any || s.to_fail;
    }
    if (any) sim::may_abort();
    const unsigned nthr = static_cast<unsigned>(sim::draw(4));
    auto body = []() {
        for (auto n = 1 + sim::draw(3); n; --n) {
            const auto lib = static_cast<unsigned>(sim::draw(2));
            switch (sim::draw(3)) {
                case 0: use_fragile<0>(lib); break;
                case 1: use_fragile<1>(lib); break;
                default: use_fragile<2>(lib);
            }
        }
    };
    if (nthr && any) sim::nontrivial();
    if (any) sim::probe("failing_constructor");
    sim::note_state(nthr * 8u + (fst[0].to_fail ? 1u : 0u) + (fst[1].to_fail ? 2u : 0u) + (fst[2].to_fail ? 4u : 0u));
    for (unsigned i = 0; i < nthr; ++i) sim::go("user", body);
    body();
    sim::join_all();
}
