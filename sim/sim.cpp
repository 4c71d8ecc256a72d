// Deterministic simulator runtime. Compiled WITHOUT instrumentation; obake and
// the workloads are compiled with -fsanitize=thread and link against the
// __tsan_* entry points defined here instead of against ThreadSanitizer.
#include "sim.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <linux/futex.h>
#include <map>
#include <memory>
#include <new>
#include <pthread.h>
#include <regex>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <unwind.h>
#include <vector>

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

namespace sim
{
namespace
{

using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

// ------------------------------------------------------------------ layout
constexpr u64 REGION = 0x100000000000ull;     // simulated heap + fiber stacks
constexpr u64 HEAP_SIZE = 1ull << 30;
constexpr unsigned MAXF = 24;
constexpr u64 STACK_SIZE = 1ull << 20;
constexpr u64 STACKS = REGION + HEAP_SIZE;
constexpr u64 REGION_SIZE = HEAP_SIZE + MAXF * STACK_SIZE;
constexpr u64 SHADOW = 0x200000000000ull;     // 4 u64 slots per 8 bytes
constexpr u64 POISON = 0x300000000000ull;     // 1 byte per 8 bytes of heap
constexpr u64 GSHADOW = 0x280000000000ull;    // shadow of the image's data/bss
constexpr unsigned NSLOT = 4;
constexpr u64 REDZONE = 16;

extern "C" char __data_start, _end;

struct rng {
    u64 s;
    explicit rng(u64 x = 0) : s(x) {}
    u64 next()
    {
        u64 z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n)
    {
        return n ? next() % n : 0;
    }
};

u64 mix(u64 h, u64 v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    return h * 0x100000001b3ull;
}

// ------------------------------------------------------------------ shared result block
constexpr unsigned MAXPROBE = 96;
constexpr unsigned MAXW = 1u << 18, MAXS = 1u << 18, MAXFT = 1u << 14, MAXSTATES = 1u << 12;
struct strace {
    u64 tick;
    u32 target, pad;
};
struct ftrace {
    u32 kind, val;
    u64 idx;
};
enum status_t : u32 { st_none = 0, st_ok, st_violation, st_harness_error };
struct shared {
    u32 status, exited;
    char cls[64];
    char msg[4000];
    u64 ticks, switches, fibers, event_hash, sched_hash, allocs, max_live;
    u32 nontrivial;
    u64 fired[f_nkinds], sites[f_nkinds];
    u32 nprobe;
    char pname[MAXPROBE][40];
    u64 pval[MAXPROBE];
    u32 nstates;
    u64 states[MAXSTATES];
    u32 nw, ns, nf;
    u64 w[MAXW];
    strace s[MAXS];
    ftrace f[MAXFT];
};
shared *SH = nullptr;

// ------------------------------------------------------------------ global state
int g_rt = 1;            // >0: inside the simulator or the harness
bool g_active = false;   // a simulated run is in progress (in a child)
inline bool on()
{
    return g_active && g_rt == 0;
}
struct rt_guard {
    rt_guard()
    {
        ++g_rt;
    }
    ~rt_guard()
    {
        --g_rt;
    }
};

struct trace_in {
    bool replay = false;
    std::vector<u64> w;
    std::vector<strace> s;
    std::vector<ftrace> f;
};
trace_in g_in;
std::size_t g_wi = 0, g_si = 0;
std::map<std::pair<u32, u64>, u32> g_fin;

u64 g_seed = 0;
rng g_rw, g_rs, g_rf;
std::string g_param, g_tier = "quick";
u64 g_ehash = 0xcbf29ce484222325ull;

// ------------------------------------------------------------------ fibers
struct vclock {
    u32 c[MAXF];
    void clear()
    {
        std::memset(c, 0, sizeof(c));
    }
    void join(const vclock &o)
    {
        for (unsigned i = 0; i < MAXF; ++i) c[i] = std::max(c[i], o.c[i]);
    }
};
struct eh_globals {
    void *caught;
    unsigned uncaught;
};
enum fstate { fs_free, fs_run, fs_block, fs_done };
struct tls_dtor {
    void (*f)(void *);
    void *o;
};
struct fiber {
    fstate st = fs_free;
    void *sp = nullptr;
    vclock vc, acq_fence, rel_fence;
    bool has_rel_fence = false;
    eh_globals eh{};
    int saved_rt = 0;
    std::function<void()> fn;
    std::string name;
    std::unordered_map<void *, void *> tls;
    std::vector<tls_dtor> tls_dtors;
    std::function<bool()> ready; // for blocked fibers
    const char *why = "";
    u64 prio = 0;
    u64 spin_addr = 0, spin_val = 0;
    unsigned spin_n = 0;
    u64 lock_depth = 0;
    u64 arena = 0;
    u64 isolation = 0;
    bool daemon = false;
    unsigned exec_depth = 0;
    unsigned static_depth = 0; // statics it is initialising
};
fiber g_f[MAXF];
unsigned g_nf = 0;
unsigned g_cur = 0;
eh_globals g_main_eh{};
void *g_main_sp = nullptr;

u64 g_tick = 0, g_next = ~0ull, g_max_ticks = 180'000'000;
u64 g_switches = 0, g_shash = 0x1234567;
bool g_race_on = true;
bool g_nopreempt = false;

// strategy of this run
u32 st_kind = 0;       // 0 random, 1 PCT, 2 almost sequential
u64 st_mem = 0;        // mean distance between memory-access preemptions (0: none)
u64 st_sync_den = 4;   // switch probability 1/den at synchronisation points
std::vector<u64> st_change;
u64 g_split_policy = 2, g_split_salt = 1, g_split_calls = 0;

extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
.globl sim_fiber_tramp
.type sim_fiber_tramp,@function
sim_fiber_tramp:
    .cfi_startproc
    .cfi_undefined rip
    xorl %ebp, %ebp
    call sim_fiber_main
    ud2
    .cfi_endproc
.size sim_fiber_tramp,.-sim_fiber_tramp
)");
extern "C" void sim_fiber_tramp();

eh_globals *eh_now()
{
    return reinterpret_cast<eh_globals *>(abi::__cxa_get_globals());
}

[[noreturn]] void finish(status_t st)
{
    SH->ticks = g_tick;
    SH->switches = g_switches;
    SH->fibers = g_nf;
    SH->event_hash = g_ehash;
    SH->sched_hash = g_shash;
    SH->status = st;
    ::_exit(0);
}

// Debugging aid: SIM_BT=1 prints the call stack of a violation.
bool g_bt = false;

[[noreturn]] void die(status_t st, const char *cls, const char *msg)
{
    ++g_rt;
    if (g_bt) {
        _Unwind_Backtrace(
            [](_Unwind_Context *c, void *) {
                std::fprintf(stderr, "bt: %p\n", reinterpret_cast<void *>(_Unwind_GetIP(c)));
                return _URC_NO_REASON;
            },
            nullptr);
    }
    if (SH->status == st_none) {
        std::snprintf(SH->cls, sizeof(SH->cls), "%s", cls);
        std::snprintf(SH->msg, sizeof(SH->msg), "%s", msg);
        g_ehash = mix(g_ehash, 0xdead);
        for (const char *p = cls; *p; ++p) g_ehash = mix(g_ehash, static_cast<u8>(*p));
        finish(st);
    }
    ::_exit(0);
}
[[noreturn]] void harness_error(const std::string &m)
{
    die(st_harness_error, "harness-error", m.c_str());
}

void set_next()
{
    // When is the next memory-access preemption?
    if (g_in.replay) {
        g_next = g_si < g_in.s.size() ? g_in.s[g_si].tick : ~0ull;
    } else if (st_mem && !g_nopreempt) {
        // geometric-ish
        g_next = g_tick + 1 + g_rs.below(st_mem * 2);
    } else {
        g_next = ~0ull;
    }
    for (auto c : st_change) {
        if (!g_in.replay && c > g_tick && c < g_next) g_next = c;
    }
}

void do_switch(unsigned to)
{
    if (to == g_cur) return;
    ++g_switches;
    g_shash = mix(mix(g_shash, g_tick), to);
    g_ehash = mix(mix(g_ehash, g_tick), to + 77u);
    fiber &a = g_f[g_cur], &b = g_f[to];
    a.eh = *eh_now();
    *eh_now() = b.eh;
    a.saved_rt = g_rt;
    g_rt = b.saved_rt;
    g_cur = to;
    sim_switch(&a.sp, b.sp);
}

bool runnable(unsigned i)
{
    fiber &f = g_f[i];
    if (f.st == fs_run) return true;
    if (f.st == fs_block && f.ready && f.ready()) return true;
    return false;
}

void record_s(unsigned target)
{
    if (SH->ns < MAXS) {
        SH->s[SH->ns].tick = g_tick;
        SH->s[SH->ns].target = target;
        ++SH->ns;
    }
}

std::string describe_fibers()
{
    std::string s;
    for (unsigned i = 0; i < g_nf; ++i) {
        if (g_f[i].st == fs_done || g_f[i].st == fs_free) continue;
        s += " [" + std::to_string(i) + ":" + g_f[i].name + (g_f[i].st == fs_block ? " blocked: " : " running: ") + g_f[i].why + "]";
    }
    return s;
}

void budget()
{
    if (UNLIKELY(g_tick > g_max_ticks)) {
        die(st_violation, "no-progress", ("the step budget was exhausted:" + describe_fibers()).c_str());
    }
}

// A scheduling decision. must: the current fiber cannot continue.
void decide(bool must, bool spin)
{
    // in rt
    unsigned cand[MAXF], nc = 0;
    for (unsigned i = 0; i < g_nf; ++i) {
        if (i == g_cur && must) continue;
        if (runnable(i)) cand[nc++] = i;
    }
    if (must && !nc) {
        bool any = false;
        for (unsigned i = 0; i < g_nf; ++i) any |= (g_f[i].st == fs_block && !g_f[i].daemon);
        if (any) die(st_violation, "deadlock", ("no simulated thread can run:" + describe_fibers()).c_str());
        harness_error("nothing to run");
    }
    if (!nc) return;
    unsigned target = g_cur;
    // default policy: stay; round robin when the current one cannot stay
    auto rr = [&]() {
        for (unsigned k = 1; k <= g_nf; ++k) {
            unsigned i = (g_cur + k) % g_nf;
            if (i == g_cur) continue;
            for (unsigned c = 0; c < nc; ++c)
                if (cand[c] == i) return i;
        }
        return g_cur;
    };
    unsigned dflt = (must || spin) ? rr() : g_cur;
    target = dflt;
    if (g_in.replay) {
        while (g_si < g_in.s.size() && g_in.s[g_si].tick < g_tick) ++g_si;
        if (g_si < g_in.s.size() && g_in.s[g_si].tick == g_tick) {
            unsigned t = g_in.s[g_si].target;
            ++g_si;
            for (unsigned c = 0; c < nc; ++c)
                if (cand[c] == t) target = t;
        }
    } else if (g_nopreempt && !must && !spin) {
        target = g_cur;
    } else if (st_kind == 1) {
        for (auto c : st_change) {
            if (c <= g_tick && c + 4096 > g_tick && g_f[g_cur].prio > 1000) {
                // this fiber reached a change point: lowest priority from now on
                static u64 low = 1000;
                g_f[g_cur].prio = --low;
                break;
            }
        }
        u64 best = 0;
        for (unsigned c = 0; c < nc; ++c) {
            if (spin && cand[c] == g_cur) continue;
            if (target == g_cur && (must || spin)) target = cand[c];
            if (g_f[cand[c]].prio >= best) {
                best = g_f[cand[c]].prio;
                target = cand[c];
            }
        }
        if (spin) {
            // Spinners must not starve the fiber they wait for.
            static u64 low2 = 500;
            if (low2 <= 1) {
                // Out of low priorities: number them anew, in the same order.
                unsigned idx[MAXF], n = 0;
                for (unsigned i = 0; i < g_nf; ++i)
                    if (g_f[i].prio < 500) idx[n++] = i;
                std::sort(idx, idx + n, [](unsigned a, unsigned b) { return g_f[a].prio < g_f[b].prio; });
                for (unsigned i = 0; i < n; ++i) g_f[idx[i]].prio = 500 - n + i;
                low2 = 500 - n;
            }
            g_f[g_cur].prio = --low2;
        }
    } else {
        if (must || spin) {
            target = cand[g_rs.below(nc)];
            if (spin && target == g_cur) target = dflt;
        } else if (g_rs.below(st_sync_den) == 0) {
            target = cand[g_rs.below(nc)];
        }
    }
    if (target != dflt) record_s(target);
    if (target != g_cur) do_switch(target);
}

void point_slow(bool sync)
{
    rt_guard g;
    budget();
    if (g_nf > 1) {
        if (sync) {
            decide(false, false);
        } else if (g_in.replay) {
            decide(false, false);
        } else if (!g_nopreempt) {
            // A memory-access preemption: go somewhere else.
            unsigned cand[MAXF], nc = 0;
            for (unsigned i = 0; i < g_nf; ++i)
                if (i != g_cur && runnable(i)) cand[nc++] = i;
            if (st_kind == 1) {
                decide(false, false);
            } else if (nc) {
                unsigned t = cand[g_rs.below(nc)];
                record_s(t);
                do_switch(t);
            }
        }
    }
    set_next();
}

inline void mem_point()
{
    if (UNLIKELY(++g_tick >= g_next)) point_slow(false);
}
void sync_point()
{
    ++g_tick;
    point_slow(true);
}
void spin_point()
{
    ++g_tick;
    rt_guard g;
    budget();
    if (g_nf > 1) decide(false, true);
    set_next();
}

// Block the current fiber until pred() holds.
// NOTE: the predicate is wrapped inside the runtime, it must not allocate in the caller's context.
template <typename P>
void block(const char *why, const P &p)
{
    rt_guard g;
    const std::function<bool()> pred(p);
    while (!pred()) {
        ++g_tick;
        budget();
        fiber &f = g_f[g_cur];
        f.st = fs_block;
        f.why = why;
        f.ready = pred;
        decide(true, false);
        f.st = fs_run;
        f.ready = nullptr;
        f.why = "";
    }
    set_next();
}

void release_epoch()
{
    ++g_f[g_cur].vc.c[g_cur];
}

void run_tls_dtors(fiber &f)
{
    while (!f.tls_dtors.empty()) {
        auto d = f.tls_dtors.back();
        f.tls_dtors.pop_back();
        int o = g_rt;
        g_rt = 0;
        d.f(d.o);
        g_rt = o;
    }
    for (auto &p : f.tls) std::free(p.second);
    f.tls.clear();
}

extern "C" void sim_fiber_main()
{
    // entered with g_rt == 1
    {
        fiber &f = g_f[g_cur];
        try {
            g_rt = 0;
            f.fn();
            g_rt = 1;
        } catch (const std::exception &e) {
            g_rt = 1;
            die(st_violation, "uncaught-exception", (f.name + ": " + e.what()).c_str());
        } catch (...) {
            g_rt = 1;
            die(st_violation, "uncaught-exception", f.name.c_str());
        }
        run_tls_dtors(f);
        f.fn = nullptr;
        f.st = fs_done;
        release_epoch();
        ++g_tick;
    }
    decide(true, false);
    harness_error("dead fiber resumed");
}

void unpoison_shadow(u64 a, u64 n)
{
    u64 *s = reinterpret_cast<u64 *>(SHADOW + (a - REGION) * NSLOT);
    std::memset(s, 0, (n / 8) * NSLOT * 8);
}

unsigned make_fiber(const char *name, std::function<void()> fn)
{
    unsigned id = MAXF;
    for (unsigned i = 0; i < g_nf; ++i) {
        if (g_f[i].st == fs_free) id = i;
    }
    if (id == MAXF) {
        if (g_nf == MAXF) harness_error("too many fibers");
        id = g_nf++;
    }
    fiber &f = g_f[id];
    f.st = fs_run;
    f.name = name;
    f.fn = std::move(fn);
    f.vc.clear();
    f.acq_fence.clear();
    f.has_rel_fence = false;
    f.eh = eh_globals{};
    f.saved_rt = 1;
    f.arena = id + 1;
    f.isolation = 0;
    f.prio = 100000 + g_rs.below(100000);
    if (g_active && id != 0) {
        f.vc = g_f[g_cur].vc;
        f.arena = id + 1;
    }
    f.vc.c[id] = 1;
    u64 top = STACKS + (id + 1) * STACK_SIZE - 64;
    u64 *sp = reinterpret_cast<u64 *>(top);
    // layout popped by sim_switch: r15 r14 r13 r12 rbx rbp ret
    // At the trampoline's entry the stack must be 16-byte aligned before its call.
    *--sp = 0;
    *--sp = 0;
    *--sp = reinterpret_cast<u64>(&sim_fiber_tramp);
    for (int i = 0; i < 6; ++i) *--sp = 0;
    f.sp = sp;
    return id;
}

// ------------------------------------------------------------------ race detector
// slot: clk[0..31] fid[32..39] mask[40..47] write[48] atomic[49]
struct sync_var {
    vclock vc;
};
std::unordered_map<u64, sync_var> *g_sync;

struct last_pc {
    u64 pc;
};

u64 image_lo, image_hi;

inline u64 *shadow_of(u64 a)
{
    if (a - REGION < REGION_SIZE) return reinterpret_cast<u64 *>(SHADOW + ((a - REGION) & ~7ull) * NSLOT);
    if (a - image_lo < image_hi - image_lo) return reinterpret_cast<u64 *>(GSHADOW + ((a - image_lo) & ~7ull) * NSLOT);
    return nullptr;
}

[[noreturn]] void report_race(u64 a, unsigned sz, bool w, u64 slot, void *pc)
{
    char buf[512];
    const unsigned of = (slot >> 32) & 0xff;
    std::snprintf(buf, sizeof(buf),
                  "data race: %s of %u byte(s) at 0x%llx by thread %u (%s), pc 0x%llx, is not ordered after the %s%s by thread %u (%s)",
                  w ? "write" : "read", sz, static_cast<unsigned long long>(a), g_cur, g_f[g_cur].name.c_str(),
                  static_cast<unsigned long long>(reinterpret_cast<u64>(pc)), (slot >> 49) & 1 ? "atomic " : "",
                  (slot >> 48) & 1 ? "write" : "read", of, g_f[of].name.c_str());
    die(st_violation, "data-race", buf);
}

void track(u64 a, unsigned sz, bool w, bool atomic, void *pc)
{
    // the access lies within one 8-byte word
    u64 *s = shadow_of(a);
    if (!s) return;
    const u64 mask = ((1ull << sz) - 1) << (a & 7);
    const vclock &vc = g_f[g_cur].vc;
    const u64 me = (static_cast<u64>(vc.c[g_cur])) | (static_cast<u64>(g_cur) << 32) | (mask << 40)
                   | (static_cast<u64>(w) << 48) | (static_cast<u64>(atomic) << 49);
    int put = -1;
    for (unsigned i = 0; i < NSLOT; ++i) {
        const u64 v = s[i];
        if (!v) {
            if (put < 0) put = static_cast<int>(i);
            continue;
        }
        const unsigned of = (v >> 32) & 0xff;
        const u64 om = (v >> 40) & 0xff;
        const bool ow = (v >> 48) & 1, oa = (v >> 49) & 1;
        if (of == g_cur) {
            // same fiber: replace if we are at least as strong
            if (om == mask && (w || !ow) && (!atomic || oa)) {
                if (put < 0 || s[put]) {
                    put = static_cast<int>(i);
                } else {
                    s[i] = 0;
                }
            } else if (om == mask && ow && !w && !oa && !atomic && (v & 0xffffffffu) == vc.c[g_cur]) {
                return; // our own write in this epoch subsumes this read
            }
            continue;
        }
        const bool ordered = (v & 0xffffffffu) <= vc.c[of];
        if (!ordered && (om & mask) && (w || ow) && !(atomic && oa)) {
            if (g_race_on) report_race(a, sz, w, v, pc);
        }
        if (ordered && (om & ~mask) == 0 && (w || !ow)) {
            // ours replaces it
            if (put < 0) {
                put = static_cast<int>(i);
            } else {
                s[i] = 0;
            }
        }
    }
    if (put < 0) {
        static u32 rot = 0;
        put = static_cast<int>(rot++ % NSLOT);
    }
    s[put] = me;
}

void check_addr(u64 a, unsigned sz, bool w, void *pc)
{
    if (a - REGION < HEAP_SIZE) {
        const u8 p = *reinterpret_cast<u8 *>(POISON + ((a - REGION) >> 3));
        const unsigned end = (a & 7) + sz;
        if (UNLIKELY(p != 8)) {
            if (p == 0 || p > 8 || end > p) {
                char buf[256];
                std::snprintf(buf, sizeof(buf), "%s of %u byte(s) at 0x%llx (%s), pc 0x%llx, thread %u (%s)",
                              w ? "write" : "read", sz, static_cast<unsigned long long>(a),
                              p == 0xfd ? "freed memory" : "outside any allocated object",
                              static_cast<unsigned long long>(reinterpret_cast<u64>(pc)), g_cur,
                              g_f[g_cur].name.c_str());
                die(st_violation, p == 0xfd ? "use-after-free" : "out-of-bounds", buf);
            }
        }
    }
}

// Debugging aid: SIM_WATCH=0xADDR prints every access to that word.
u64 g_watch = 0;

void access_slow(u64 a, u64 sz, bool w, void *pc)
{
    while (sz) {
        const unsigned in = 8u - static_cast<unsigned>(a & 7);
        const unsigned n = sz < in ? static_cast<unsigned>(sz) : in;
        check_addr(a, n, w, pc);
        if (g_nf > 1) track(a, n, w, false, pc);
        a += n;
        sz -= n;
    }
}

inline void access_(void *p, u64 sz, bool w, void *pc)
{
    if (!on()) return;
    mem_point();
    const u64 a = reinterpret_cast<u64>(p);
    if (a - REGION < REGION_SIZE) g_ehash = (g_ehash ^ a) * 0x100000001b3ull;
    if (UNLIKELY(g_watch && a <= g_watch && g_watch < a + sz)) {
        std::fprintf(stderr, "watch: %s of %llu at 0x%llx pc %p thread %u tick %llu\n", w ? "write" : "read", static_cast<unsigned long long>(sz),
                     static_cast<unsigned long long>(a), pc, g_cur, static_cast<unsigned long long>(g_tick));
    }
    if (LIKELY((a & 7) + sz <= 8)) {
        check_addr(a, static_cast<unsigned>(sz), w, pc);
        if (g_nf > 1) track(a, static_cast<unsigned>(sz), w, false, pc);
    } else {
        access_slow(a, sz, w, pc);
    }
}

// ------------------------------------------------------------------ heap
struct hdr {
    u64 magic, size, seq, cls;
};
static_assert(sizeof(hdr) == 32);
constexpr u64 MAGIC = 0x5eed5eed5eed5eedull, MAGIC_FREE = 0xf4eef4eef4eef4eeull;
u64 g_brk = REGION + 4096;
u64 g_live = 0, g_live_b = 0, g_nalloc = 0;
u64 g_reuse_after = ~0ull; // bytes of heap growth before blocks are recycled
std::map<u64, std::vector<u64>> *g_freelist;
u64 g_fill = 0xa5;
std::set<u64> *g_static_blocks; // live blocks allocated while initialising a static

u64 total_of(u64 n)
{
    return ((n + 15) & ~15ull) + sizeof(hdr) + REDZONE;
}

void *heap_alloc(u64 n)
{
    const u64 tot = total_of(n);
    u64 base = 0;
    if (tot > HEAP_SIZE || n > HEAP_SIZE) return nullptr;
    if (g_brk - REGION > g_reuse_after) {
        auto it = g_freelist->find(tot);
        if (it != g_freelist->end() && !it->second.empty()) {
            base = it->second.back();
            it->second.pop_back();
        }
    }
    if (!base) {
        if (g_brk + tot > REGION + HEAP_SIZE) return nullptr;
        base = g_brk;
        g_brk += tot;
    }
    hdr *h = reinterpret_cast<hdr *>(base);
    h->magic = MAGIC;
    h->size = n;
    h->seq = ++g_nalloc;
    h->cls = tot;
    ++g_live;
    g_live_b += n;
    if (g_live_b > SH->max_live) SH->max_live = g_live_b;
    const u64 user = base + sizeof(hdr);
    if (g_active && g_f[g_cur].static_depth && g_rt <= 1) g_static_blocks->insert(user);
    u8 *p = reinterpret_cast<u8 *>(POISON + ((base - REGION) >> 3));
    std::memset(p, 0xfa, sizeof(hdr) / 8);
    p += sizeof(hdr) / 8;
    const u64 full = n / 8;
    std::memset(p, 8, full);
    p += full;
    if (n & 7) *p++ = static_cast<u8>(n & 7);
    u8 *pe = reinterpret_cast<u8 *>(POISON + ((base + tot - REGION) >> 3));
    std::memset(p, 0xfa, static_cast<std::size_t>(pe - p));
    unpoison_shadow(user, (n + 7) & ~7ull);
    std::memset(reinterpret_cast<void *>(user), static_cast<int>(g_fill), n);
    return reinterpret_cast<void *>(user);
}

void heap_free(void *q, void *pc)
{
    const u64 user = reinterpret_cast<u64>(q), base = user - sizeof(hdr);
    hdr *h = reinterpret_cast<hdr *>(base);
    if (h->magic != MAGIC) {
        die(st_violation, h->magic == MAGIC_FREE ? "double-free" : "bad-free", "operator delete on a block that is not live");
    }
    h->magic = MAGIC_FREE;
    if (!g_static_blocks->empty()) g_static_blocks->erase(user);
    --g_live;
    g_live_b -= h->size;
    if (g_active && g_nf > 1 && g_race_on && g_rt <= 1) {
        // Freeing writes the whole block.
        for (u64 a = user; a < user + h->size; a += 8) {
            const u64 left = user + h->size - a;
            track(a, left < 8 ? static_cast<unsigned>(left) : 8u, true, false, pc);
        }
    }
    std::memset(reinterpret_cast<void *>(user), 0xdd, h->size);
    std::memset(reinterpret_cast<u8 *>(POISON + ((user - REGION) >> 3)), 0xfd, (h->size + 7) / 8);
    if (!g_sync->empty()) {
        if (h->size <= 256) {
            for (u64 a = user; a < user + h->size; ++a) g_sync->erase(a);
        } else {
            for (auto it = g_sync->begin(); it != g_sync->end();) {
                if (it->first - user < h->size) {
                    it = g_sync->erase(it);
                } else {
                    ++it;
                }
            }
        }
    }
    if (g_reuse_after != ~0ull) (*g_freelist)[h->cls].push_back(base);
}

// ------------------------------------------------------------------ faults
struct fplan {
    u64 nth = 0;      // absolute site index that fires (0: none)
    u64 den = 0;      // probability 1/den
    bool armed = false;
};
fplan g_plan[f_nkinds];

void record_f(u32 k, u64 idx, u32 val)
{
    ++SH->fired[k];
    g_ehash = mix(mix(g_ehash, k + 1000u), idx);
    if (SH->nf < MAXFT) {
        SH->f[SH->nf].kind = k;
        SH->f[SH->nf].idx = idx;
        SH->f[SH->nf].val = val;
        ++SH->nf;
    }
}

u64 fault_site(u32 k, u64 nparam)
{
    // in rt
    fplan &p = g_plan[k];
    if (!p.armed) return 0;
    const u64 idx = ++SH->sites[k];
    if (g_in.replay) {
        auto it = g_fin.find({k, idx});
        if (it == g_fin.end()) return 0;
        record_f(k, idx, it->second);
        return 1 + std::min<u64>(it->second, nparam ? nparam - 1 : 0);
    }
    bool fire = false;
    if (p.nth && idx == p.nth) fire = true;
    if (p.den && g_rf.below(p.den) == 0) fire = true;
    if (!fire) return 0;
    const u32 v = static_cast<u32>(g_rf.below(nparam ? nparam : 1));
    record_f(k, idx, v);
    return 1 + v;
}

} // namespace

// ================================================================== public API
bool in_rt()
{
    return g_rt > 0;
}
harness::harness()
{
    ++g_rt;
}
harness::~harness()
{
    --g_rt;
}

std::uint64_t draw(std::uint64_t n)
{
    rt_guard g;
    u64 v;
    if (g_in.replay) {
        v = g_wi < g_in.w.size() ? g_in.w[g_wi++] : 0;
        if (n) v %= n;
    } else {
        v = g_rw.below(n);
    }
    if (SH->nw < MAXW) SH->w[SH->nw++] = v;
    g_ehash = mix(g_ehash, v);
    return v;
}
std::int64_t range(std::int64_t lo, std::int64_t hi)
{
    return lo + static_cast<std::int64_t>(draw(static_cast<u64>(hi - lo) + 1u));
}
std::uint64_t fault_draw(std::uint64_t n)
{
    return draw(n);
}
std::uint64_t seed()
{
    return g_seed;
}
const char *tier()
{
    return g_tier.c_str();
}
const std::string &param()
{
    return g_param;
}
std::uint64_t now()
{
    return g_tick;
}
void event(const char *tag, std::uint64_t a, std::uint64_t b)
{
    for (const char *p = tag; *p; ++p) g_ehash = mix(g_ehash, static_cast<u8>(*p));
    g_ehash = mix(mix(g_ehash, a), b);
}
void event_str(const char *tag, const std::string &s)
{
    event(tag, s.size());
    for (char c : s) g_ehash = mix(g_ehash, static_cast<u8>(c));
}
void probe(const char *name, std::uint64_t n)
{
    for (u32 i = 0; i < SH->nprobe; ++i) {
        if (!std::strcmp(SH->pname[i], name)) {
            SH->pval[i] += n;
            return;
        }
    }
    if (SH->nprobe < MAXPROBE) {
        std::snprintf(SH->pname[SH->nprobe], sizeof(SH->pname[0]), "%s", name);
        SH->pval[SH->nprobe++] = n;
    }
}
void nontrivial()
{
    SH->nontrivial = 1;
}
void note_state(std::uint64_t h)
{
    if (SH->nstates < MAXSTATES) SH->states[SH->nstates++] = h;
}
void violation(const std::string &cls, const std::string &msg)
{
    ++g_rt;
    die(st_violation, cls.c_str(), msg.c_str());
}
void violation_c(const char *cls, const char *msg)
{
    ++g_rt;
    die(st_violation, cls, msg);
}
void arm_nth(fault_kind k, std::uint64_t nth)
{
    g_plan[k] = fplan{};
    if (nth) {
        g_plan[k].armed = true;
        g_plan[k].nth = SH->sites[k] + nth;
    }
}
void arm_count(fault_kind k)
{
    g_plan[k] = fplan{};
    g_plan[k].armed = true;
}
void arm_prob(fault_kind k, std::uint64_t den)
{
    g_plan[k] = fplan{};
    g_plan[k].armed = den != 0;
    g_plan[k].den = den;
}
namespace
{
bool g_may_abort = false;
}
void may_abort()
{
    g_may_abort = true;
}
void disarm(fault_kind k)
{
    g_plan[k] = fplan{};
}
void note_fault(fault_kind k)
{
    ++SH->fired[k];
    ++SH->sites[k];
}
std::uint64_t fired(fault_kind k)
{
    return SH->fired[k];
}
std::uint64_t sites(fault_kind k)
{
    return SH->sites[k];
}
std::uint64_t fault(fault_kind k, std::uint64_t nparam)
{
    // NOTE: the harness's own operations never fail.
    if (!g_active || g_rt) return 0;
    rt_guard g;
    return fault_site(k, nparam);
}
std::uint64_t live_blocks()
{
    return g_live;
}
std::uint64_t live_object_blocks()
{
    rt_guard r;
    u64 n = g_live - g_static_blocks->size();
    std::set<u64> seen;
    for (auto &[c, p] : g_f[g_cur].tls) {
        const u64 *w = static_cast<const u64 *>(p);
        for (std::size_t i = 0; i < *static_cast<const std::size_t *>(c) / 8; ++i) {
            const u64 a = w[i];
            if (a < REGION + 4096 + sizeof(hdr) || a >= g_brk || a % 16) continue;
            if (reinterpret_cast<const hdr *>(a - sizeof(hdr))->magic == MAGIC && !g_static_blocks->count(a) && seen.insert(a).second) --n;
        }
    }
    return n;
}
std::uint64_t live_bytes()
{
    return g_live_b;
}
std::uint64_t alloc_count()
{
    return g_nalloc;
}
void set_split(unsigned policy, std::uint64_t salt)
{
    g_split_policy = policy;
    g_split_salt = salt;
}
void set_race_detection(bool b)
{
    g_race_on = b;
}
void disable_preempt(bool b)
{
    g_nopreempt = b;
    set_next();
}

int spawn(const char *name, std::function<void()> f)
{
    int id;
    {
        rt_guard g;
        id = static_cast<int>(make_fiber(name, std::move(f)));
        release_epoch();
    }
    sync_point();
    return id;
}
void join(int id)
{
    block("join", [id]() { return g_f[id].st == fs_done; });
    rt_guard g;
    g_f[g_cur].vc.join(g_f[id].vc);
}
void join_all()
{
    for (unsigned i = 1; i < g_nf; ++i) {
        if (i != g_cur && !g_f[i].daemon && g_f[i].st != fs_free) join(static_cast<int>(i));
    }
}
int self()
{
    return static_cast<int>(g_cur);
}
void yield()
{
    if (on()) spin_point();
}

hb::hb()
{
    rt_guard g;
    auto *v = new vclock;
    v->clear();
    p = v;
}
hb::~hb()
{
    rt_guard g;
    delete static_cast<vclock *>(p);
}
void hb::release()
{
    static_cast<vclock *>(p)->join(g_f[g_cur].vc);
    release_epoch();
}
void hb::acquire()
{
    g_f[g_cur].vc.join(*static_cast<vclock *>(p));
}

namespace
{
unsigned g_hwc = 4;
unsigned (*g_hwc_fn)() = nullptr;
std::vector<std::pair<std::string, std::pair<void (*)(), std::string>>> &registry()
{
    static std::vector<std::pair<std::string, std::pair<void (*)(), std::string>>> r;
    return r;
}
} // namespace
void set_hw_concurrency(unsigned n)
{
    g_hwc = n;
}
void set_hw_concurrency_fn(unsigned (*f)())
{
    g_hwc_fn = f;
}
} // namespace sim
#include <elf.h>
#include <dlfcn.h>
namespace sim
{
namespace
{
struct esym {
    u64 lo, hi;
    const char *name;
};
std::vector<esym> *g_syms;
} // namespace
bool load_symbols()
{
    if (g_syms) return true;
    g_syms = new std::vector<esym>;
    FILE *f = std::fopen("/proc/self/exe", "rb");
    if (!f) return false;
    std::fseek(f, 0, SEEK_END);
    const long n = std::ftell(f);
    std::fseek(f, 0, SEEK_SET);
    char *d = static_cast<char *>(std::malloc(static_cast<std::size_t>(n)));
    const bool ok = std::fread(d, 1, static_cast<std::size_t>(n), f) == static_cast<std::size_t>(n);
    std::fclose(f);
    if (!ok) return false;
    auto *eh = reinterpret_cast<Elf64_Ehdr *>(d);
    auto *sh = reinterpret_cast<Elf64_Shdr *>(d + eh->e_shoff);
    for (unsigned i = 0; i < eh->e_shnum; ++i) {
        if (sh[i].sh_type != SHT_SYMTAB) continue;
        auto *st = reinterpret_cast<Elf64_Sym *>(d + sh[i].sh_offset);
        const char *str = d + sh[sh[i].sh_link].sh_offset;
        for (u64 k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k) {
            if (ELF64_ST_TYPE(st[k].st_info) != STT_FUNC || !st[k].st_size) continue;
            g_syms->push_back({st[k].st_value, st[k].st_value + st[k].st_size, ::strdup(str + st[k].st_name)});
        }
    }
    std::free(d);
    std::sort(g_syms->begin(), g_syms->end(), [](const esym &a, const esym &b) { return a.lo < b.lo || (a.lo == b.lo && std::strcmp(a.name, b.name) < 0); });
    return true;
}
namespace
{
int do_dladdr(const void *p, Dl_info *o)
{
    std::memset(o, 0, sizeof(*o));
    if (!g_syms) return 0;
    const u64 a = reinterpret_cast<u64>(p);
    auto it = std::upper_bound(g_syms->begin(), g_syms->end(), a, [](u64 x, const esym &s) { return x < s.lo; });
    if (it == g_syms->begin()) return 0;
    --it;
    if (a >= it->hi) return 0;
    o->dli_fname = "exe";
    o->dli_sname = it->name;
    o->dli_saddr = reinterpret_cast<void *>(it->lo);
    return 1;
}
} // namespace
registrar::registrar(const char *name, void (*fn)(), const char *desc)
{
    registry().push_back({name, {fn, desc}});
}

// ================================================================== simulated task scheduler
namespace tasks
{
namespace
{
struct grp {
    vclock vc;
    grp *parent = nullptr;
    u64 pending = 0;
    bool cancel = false;
    std::exception_ptr exc;
    bool is_cancelled() const
    {
        for (const grp *g = this; g; g = g->parent)
            if (g->cancel) return true;
        return false;
    }
};
struct task {
    grp *g;
    std::function<void()> f;
    u64 arena, isolation;
    vclock vc;
};
std::vector<std::unique_ptr<task>> *g_pool;
grp *g_cur_grp[MAXF];
u64 g_iso = 0;

bool eligible(const task &t, u64 arena, u64 iso, bool worker)
{
    if (worker && arena == 0) return true;
    return t.arena == arena && (iso == 0 || t.isolation == iso);
}
int pick(u64 arena, u64 iso, bool worker)
{
    // Own most recent task first (like TBB's local deque), unless the schedule says otherwise.
    int n = 0, last = -1;
    std::vector<int> c;
    for (std::size_t i = 0; i < g_pool->size(); ++i) {
        if (eligible(*(*g_pool)[i], arena, iso, worker)) {
            c.push_back(static_cast<int>(i));
            last = static_cast<int>(i);
            ++n;
        }
    }
    if (!n) return -1;
    (void)last;
    return c[perm(static_cast<u64>(n))];
}
void exec(int idx)
{
    // in rt (depth 1)
    std::unique_ptr<task> t = std::move((*g_pool)[static_cast<std::size_t>(idx)]);
    g_pool->erase(g_pool->begin() + idx);
    const unsigned me = g_cur;
    fiber &f = g_f[me];
    f.vc.join(t->vc);
    const u64 oa = f.arena, oi = f.isolation;
    grp *og = g_cur_grp[me];
    f.arena = t->arena;
    f.isolation = t->isolation;
    g_cur_grp[me] = t->g;
    ++f.exec_depth;
    if (f.exec_depth > 1) probe("nested_task_execution");
    if (!t->g->is_cancelled()) {
        const int old = g_rt;
        try {
            g_rt = 0;
            t->f();
            g_rt = old;
        } catch (...) {
            g_rt = old;
            if (!t->g->cancel) {
                t->g->cancel = true;
                t->g->exc = std::current_exception();
            }
        }
    } else {
        probe("tasks_cancelled");
    }
    --f.exec_depth;
    {
        // Destroying the task's callable destroys copies of user functors.
        const int old = g_rt;
        t->f = nullptr;
        g_rt = old;
    }
    f.arena = oa;
    f.isolation = oi;
    g_cur_grp[me] = og;
    t->g->vc.join(f.vc);
    ++f.vc.c[me];
    --t->g->pending;
}
} // namespace

group::group(bool detached)
{
    rt_guard g;
    auto *x = new grp;
    x->vc.clear();
    x->parent = detached ? nullptr : g_cur_grp[g_cur];
    impl = x;
}
group::~group()
{
    rt_guard g;
    delete static_cast<grp *>(impl);
}
void group::cancel()
{
    static_cast<grp *>(impl)->cancel = true;
}
bool group::cancelled() const
{
    return static_cast<grp *>(impl)->is_cancelled();
}
void alloc_task()
{
    if (!g_active || g_rt > 0) return;
    bool fail;
    {
        rt_guard g;
        fail = g_plan[f_alloc].armed && fault_site(f_alloc, 1) != 0;
        if (fail) probe("task_allocation_failed", 1);
    }
    if (fail) throw std::bad_alloc();
}
void group::run(std::function<void()> f)
{
    {
        rt_guard g;
        auto t = std::make_unique<task>();
        t->g = static_cast<grp *>(impl);
        t->f = std::move(f);
        t->arena = g_f[g_cur].arena;
        t->isolation = g_f[g_cur].isolation;
        t->vc = g_f[g_cur].vc;
        release_epoch();
        ++t->g->pending;
        g_pool->push_back(std::move(t));
    }
    sync_point();
}
void group::run_here_(void (*f)(const void *), const void *p)
{
    auto *x = static_cast<grp *>(impl);
    grp *og;
    {
        rt_guard g;
        og = g_cur_grp[g_cur];
        g_cur_grp[g_cur] = x;
    }
    const unsigned me = g_cur;
    try {
        if (!x->is_cancelled()) f(p);
    } catch (...) {
        rt_guard g;
        if (!x->cancel) {
            x->cancel = true;
            x->exc = std::current_exception();
        }
    }
    g_cur_grp[me] = og;
}
void group::wait()
{
    auto *x = static_cast<grp *>(impl);
    for (;;) {
        sync_point();
        rt_guard g;
        if (!x->pending) break;
        fiber &f = g_f[g_cur];
        const int i = pick(f.arena, f.isolation, false);
        if (i >= 0) {
            if ((*g_pool)[static_cast<std::size_t>(i)]->g != x) probe("waiter_ran_unrelated_task");
            exec(i);
            continue;
        }
        const u64 a = f.arena, iso = f.isolation;
        // NOTE: depth: block() expects to be called outside of rt.
        --g_rt;
        block("waiting for parallel tasks", [x, a, iso]() { return !x->pending || [&]() {
            for (auto &t : *g_pool)
                if (eligible(*t, a, iso, false)) return true;
            return false;
        }(); });
        ++g_rt;
    }
    std::exception_ptr e;
    {
        rt_guard g;
        g_f[g_cur].vc.join(x->vc);
        std::swap(e, x->exc);
    }
    if (e) std::rethrow_exception(std::move(e));
}
bool cancelled_here()
{
    return g_cur_grp[g_cur] && g_cur_grp[g_cur]->is_cancelled();
}
bool split(std::uint64_t size, std::uint64_t depth)
{
    rt_guard g;
    switch (g_split_policy) {
        case 0:
            return false;
        case 1:
            return depth < 4;
        case 2: {
            const u64 h = mix(mix(mix(g_split_salt, ++g_split_calls), size), depth);
            return depth < 6 && (h >> 20) % 3 != 0;
        }
        case 3: {
            const u64 h = mix(mix(mix(g_split_salt, ++g_split_calls), size), depth);
            return depth < 3 && (h >> 20) % 2 != 0;
        }
        default:
            return depth < 10;
    }
}
bool stolen()
{
    rt_guard g;
    const u64 h = mix(mix(g_split_salt, ++g_split_calls), 99);
    return (h >> 20) & 1;
}
std::uint64_t perm(std::uint64_t n)
{
    rt_guard g;
    const u64 h = mix(mix(g_split_salt, ++g_split_calls), 7);
    return n ? (h >> 16) % n : 0;
}
void isolate_begin(std::uint64_t &old)
{
    rt_guard g;
    old = g_f[g_cur].isolation;
    g_f[g_cur].isolation = ++g_iso;
}
void isolate_end(std::uint64_t old)
{
    rt_guard g;
    g_f[g_cur].isolation = old;
}
void algo(const char *name)
{
    probe(name);
}
namespace
{
bool g_stop_workers = false;
void worker_body()
{
    // Runs as a daemon fiber, mostly in rt.
    for (;;) {
        rt_guard g;
        const int i = pick(0, 0, true);
        if (i >= 0) {
            probe("worker_tasks");
            exec(i);
        } else {
            if (g_stop_workers) return;
            --g_rt;
            block("idle worker", []() { return g_stop_workers || !g_pool->empty(); });
            ++g_rt;
        }
        --g_rt;
        sync_point();
        ++g_rt;
    }
}
} // namespace
} // namespace tasks

void set_workers(unsigned n)
{
    for (unsigned i = 0; i < n; ++i) {
        unsigned id;
        {
            rt_guard g;
            id = make_fiber("tbb-worker", [] { tasks::worker_body(); });
            g_f[id].daemon = true;
            g_f[id].arena = 0;
            release_epoch();
        }
    }
}

namespace
{
void stop_workers()
{
    tasks::g_stop_workers = true;
    for (unsigned i = 0; i < g_nf; ++i) {
        if (g_f[i].daemon && g_f[i].st != fs_free) join(static_cast<int>(i));
    }
}

// ------------------------------------------------------------------ simulated synchronisation objects
struct smutex {
    int owner = -1;
    u64 depth = 0;
    vclock vc;
    u64 readers = 0;
};
std::map<u64, smutex> *g_mtx;
smutex &mtx(const void *m)
{
    auto &r = (*g_mtx)[reinterpret_cast<u64>(m)];
    return r;
}
} // namespace
} // namespace sim

using namespace sim;

// ================================================================== instrumentation entry points
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                                          \
    void __tsan_read##n(void *a)                                                                                       \
    {                                                                                                                  \
        access_(a, n, false, PC);                                                                                      \
    }                                                                                                                  \
    void __tsan_write##n(void *a)                                                                                      \
    {                                                                                                                  \
        access_(a, n, true, PC);                                                                                       \
    }                                                                                                                  \
    void __tsan_unaligned_read##n(void *a)                                                                             \
    {                                                                                                                  \
        access_(a, n, false, PC);                                                                                      \
    }                                                                                                                  \
    void __tsan_unaligned_write##n(void *a)                                                                            \
    {                                                                                                                  \
        access_(a, n, true, PC);                                                                                       \
    }                                                                                                                  \
    void __tsan_read_write##n(void *a)                                                                                 \
    {                                                                                                                  \
        access_(a, n, true, PC);                                                                                       \
    }                                                                                                                  \
    void __tsan_unaligned_read_write##n(void *a)                                                                       \
    {                                                                                                                  \
        access_(a, n, true, PC);                                                                                       \
    }                                                                                                                  \
    void __tsan_volatile_read##n(void *a)                                                                              \
    {                                                                                                                  \
        access_(a, n, false, PC);                                                                                      \
    }                                                                                                                  \
    void __tsan_volatile_write##n(void *a)                                                                             \
    {                                                                                                                  \
        access_(a, n, true, PC);                                                                                       \
    }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
#undef RW
void __tsan_read_range(void *a, unsigned long n)
{
    access_(a, n, false, PC);
}
void __tsan_write_range(void *a, unsigned long n)
{
    access_(a, n, true, PC);
}
void __tsan_vptr_update(void **p, void *)
{
    access_(p, 8, true, PC);
}
void __tsan_vptr_read(void **p)
{
    access_(p, 8, false, PC);
}
void *__tsan_memcpy(void *d, const void *s, unsigned long n)
{
    if (n) {
        access_(const_cast<void *>(s), n, false, PC);
        access_(d, n, true, PC);
    }
    return std::memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, unsigned long n)
{
    if (n) {
        access_(const_cast<void *>(s), n, false, PC);
        access_(d, n, true, PC);
    }
    return std::memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, unsigned long n)
{
    if (n) access_(d, n, true, PC);
    return std::memset(d, c, n);
}
} // extern "C"

namespace
{
// mo: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
inline bool is_acq(int mo)
{
    return mo == 1 || mo == 2 || mo == 4 || mo == 5;
}
inline bool is_rel(int mo)
{
    return mo == 3 || mo == 4 || mo == 5;
}
void atomic_pre(const volatile void *p, unsigned sz, bool w, void *pc)
{
    sync_point();
    const u64 a = reinterpret_cast<u64>(p);
    check_addr(a, sz, w, pc);
}
void atomic_sync(const volatile void *p, unsigned sz, bool load, bool store, int mo, void *pc)
{
    ++g_rt;
    const u64 a = reinterpret_cast<u64>(p);
    if (g_nf > 1 && (a & 7) + sz <= 8) track(a, sz, store, true, pc);
    fiber &f = g_f[g_cur];
    const bool rmw = load && store;
    auto it = g_sync->find(a);
    if (load && it != g_sync->end()) {
        if (is_acq(mo)) {
            f.vc.join(it->second.vc);
        } else {
            f.acq_fence.join(it->second.vc);
        }
    }
    if (store) {
        if (is_rel(mo)) {
            auto &sv = (*g_sync)[a];
            if (it == g_sync->end() || !rmw) sv.vc.clear();
            if (rmw) {
                sv.vc.join(f.vc);
            } else {
                sv.vc = f.vc;
            }
            release_epoch();
        } else if (f.has_rel_fence) {
            auto &sv = (*g_sync)[a];
            if (!rmw) sv.vc.clear();
            sv.vc.join(f.rel_fence);
        } else if (!rmw && it != g_sync->end()) {
            it->second.vc.clear();
        }
    }
    --g_rt;
}
// Spin detection: an operation on the same location that keeps finding the same value.
void spin_check(const volatile void *p, u64 val, unsigned limit)
{
    fiber &f = g_f[g_cur];
    const u64 a = reinterpret_cast<u64>(p);
    if (f.spin_addr == a && f.spin_val == val) {
        if (++f.spin_n >= limit) {
            f.spin_n = 0;
            probe("spin_yields");
            f.why = "spinning on an atomic";
            spin_point();
            f.why = "";
        }
    } else {
        f.spin_addr = a;
        f.spin_val = val;
        f.spin_n = 0;
    }
}
template <typename T>
T a_load(const volatile T *p, int mo, void *pc)
{
    if (!on()) return *p;
    atomic_pre(p, sizeof(T), false, pc);
    T v = *p;
    atomic_sync(p, sizeof(T), true, false, mo, pc);
    spin_check(p, static_cast<u64>(v), 16);
    return v;
}
template <typename T>
void a_store(volatile T *p, T v, int mo, void *pc)
{
    if (!on()) {
        *p = v;
        return;
    }
    atomic_pre(p, sizeof(T), true, pc);
    *p = v;
    atomic_sync(p, sizeof(T), false, true, mo, pc);
    g_f[g_cur].spin_addr = 0;
}
template <typename T, typename F>
T a_rmw(volatile T *p, F fn, int mo, void *pc)
{
    if (!on()) {
        T o = *p;
        *p = fn(o);
        return o;
    }
    atomic_pre(p, sizeof(T), true, pc);
    T o = *p;
    T n = fn(o);
    *p = n;
    atomic_sync(p, sizeof(T), true, true, mo, pc);
    if (o == n) {
        spin_check(p, static_cast<u64>(o), 1);
    } else {
        g_f[g_cur].spin_addr = 0;
    }
    return o;
}
template <typename T>
int a_cas(volatile T *p, T *exp, T des, int mo, int fmo, void *pc)
{
    if (!on()) {
        if (*p == *exp) {
            *p = des;
            return 1;
        }
        *exp = *p;
        return 0;
    }
    atomic_pre(p, sizeof(T), true, pc);
    T o = *p;
    if (o == *exp) {
        *p = des;
        atomic_sync(p, sizeof(T), true, true, mo, pc);
        g_f[g_cur].spin_addr = 0;
        return 1;
    }
    atomic_sync(p, sizeof(T), true, false, fmo, pc);
    *exp = o;
    spin_check(p, static_cast<u64>(o), 2);
    return 0;
}
} // namespace

extern "C" {
#define AT(bits, T)                                                                                                    \
    T __tsan_atomic##bits##_load(const volatile T *a, int mo)                                                          \
    {                                                                                                                  \
        return a_load<T>(a, mo, PC);                                                                                   \
    }                                                                                                                  \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int mo)                                                       \
    {                                                                                                                  \
        a_store<T>(a, v, mo, PC);                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo)                                                       \
    {                                                                                                                  \
        return a_rmw<T>(a, [v](T) { return v; }, mo, PC);                                                              \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo)                                                      \
    {                                                                                                                  \
        return a_rmw<T>(a, [v](T o) { return static_cast<T>(o + v); }, mo, PC);                                        \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo)                                                      \
    {                                                                                                                  \
        return a_rmw<T>(a, [v](T o) { return static_cast<T>(o - v); }, mo, PC);                                        \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo)                                                      \
    {                                                                                                                  \
        return a_rmw<T>(a, [v](T o) { return static_cast<T>(o & v); }, mo, PC);                                        \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo)                                                       \
    {                                                                                                                  \
        return a_rmw<T>(a, [v](T o) { return static_cast<T>(o | v); }, mo, PC);                                        \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo)                                                      \
    {                                                                                                                  \
        return a_rmw<T>(a, [v](T o) { return static_cast<T>(o ^ v); }, mo, PC);                                        \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo)                                                     \
    {                                                                                                                  \
        return a_rmw<T>(a, [v](T o) { return static_cast<T>(~(o & v)); }, mo, PC);                                     \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo)                       \
    {                                                                                                                  \
        return a_cas<T>(a, c, v, mo, fmo, PC);                                                                         \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo)                         \
    {                                                                                                                  \
        return a_cas<T>(a, c, v, mo, fmo, PC);                                                                         \
    }                                                                                                                  \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo)                             \
    {                                                                                                                  \
        a_cas<T>(a, &c, v, mo, fmo, PC);                                                                               \
        return c;                                                                                                      \
    }
AT(8, u8)
AT(16, std::uint16_t)
AT(32, u32)
AT(64, u64)
#undef AT
void __tsan_atomic_thread_fence(int mo)
{
    if (!on()) return;
    sync_point();
    fiber &f = g_f[g_cur];
    if (is_acq(mo)) f.vc.join(f.acq_fence);
    if (is_rel(mo)) {
        f.rel_fence = f.vc;
        f.has_rel_fence = true;
        release_epoch();
    }
}
void __tsan_atomic_signal_fence(int) {}
// Annotations of the standard library's spinning locks (std::atomic<std::shared_ptr<...>>).
void __tsan_mutex_create(void *, unsigned) {}
void __tsan_mutex_destroy(void *, unsigned) {}
void __tsan_mutex_pre_lock(void *, unsigned) {}
void __tsan_mutex_post_lock(void *a, unsigned flags, int)
{
    if (!g_active || (flags & (1u << 5))) return; // a failed attempt
    rt_guard g;
    auto it = g_sync->find(reinterpret_cast<u64>(a) + 1u);
    if (it != g_sync->end()) g_f[g_cur].vc.join(it->second.vc);
}
int __tsan_mutex_pre_unlock(void *a, unsigned)
{
    if (!g_active) return 0;
    rt_guard g;
    (*g_sync)[reinterpret_cast<u64>(a) + 1u].vc.join(g_f[g_cur].vc);
    release_epoch();
    return 0;
}
void __tsan_mutex_post_unlock(void *, unsigned) {}
void __tsan_mutex_pre_signal(void *, unsigned) {}
void __tsan_mutex_post_signal(void *, unsigned) {}
void __tsan_mutex_pre_divert(void *, unsigned) {}
void __tsan_mutex_post_divert(void *, unsigned) {}

// ------------------------------------------------------------------ one-time initialisation of statics
// 0: untouched, byte 0 == 1: done; byte 1: in progress (owner+1)
int __cxa_guard_acquire(__cxxabiv1::__guard *g)
{
    u8 *b = reinterpret_cast<u8 *>(g);
    if (!g_active) {
        if (b[0]) return 0;
        b[1] = 0xff;
        return 1;
    }
    if (g_rt == 0) sync_point();
    ++g_rt;
    for (;;) {
        if (b[0]) {
            auto it = g_sync->find(reinterpret_cast<u64>(g));
            if (it != g_sync->end()) g_f[g_cur].vc.join(it->second.vc);
            --g_rt;
            return 0;
        }
        if (!b[1]) {
            b[1] = static_cast<u8>(g_cur + 1);
            // NOTE: an earlier attempt which failed happens before this one.
            auto it = g_sync->find(reinterpret_cast<u64>(g));
            if (it != g_sync->end()) g_f[g_cur].vc.join(it->second.vc);
            ++g_f[g_cur].static_depth;
            --g_rt;
            return 1;
        }
        if (b[1] == g_cur + 1) die(st_violation, "recursive-static-init", "recursive initialisation of a static");
        if (g_rt > 1) harness_error("static guard contended inside a harness scope");
        probe("static_init_contended");
        --g_rt;
        block("static initialisation", [b]() { return b[0] || !b[1]; });
        ++g_rt;
    }
}
void __cxa_guard_release(__cxxabiv1::__guard *g) noexcept
{
    u8 *b = reinterpret_cast<u8 *>(g);
    if (g_active) {
        {
            rt_guard r;
            auto &sv = (*g_sync)[reinterpret_cast<u64>(g)];
            sv.vc = g_f[g_cur].vc;
            release_epoch();
            if (g_f[g_cur].static_depth) --g_f[g_cur].static_depth;
        }
        b[1] = 0;
        b[0] = 1;
        if (g_rt == 0) sync_point();
    } else {
        b[1] = 0;
        b[0] = 1;
    }
}
void __cxa_guard_abort(__cxxabiv1::__guard *g) noexcept
{
    u8 *b = reinterpret_cast<u8 *>(g);
    if (g_active) {
        rt_guard r;
        auto &sv = (*g_sync)[reinterpret_cast<u64>(g)];
        sv.vc = g_f[g_cur].vc;
        release_epoch();
        if (g_f[g_cur].static_depth) --g_f[g_cur].static_depth;
    }
    b[1] = 0;
    if (g_active && g_rt == 0) sync_point();
}

// ------------------------------------------------------------------ emulated TLS: one copy per simulated thread
struct emutls_control {
    std::size_t size, align;
    union {
        u64 offset;
        void *address;
    } object;
    void *value;
};
void *__emutls_get_address(emutls_control *c)
{
    rt_guard g;
    auto &m = g_f[g_cur].tls;
    auto it = m.find(c);
    if (it != m.end()) return it->second;
    void *p = nullptr;
    if (posix_memalign(&p, std::max<std::size_t>(c->align, 16), std::max<std::size_t>(c->size, 16))) std::abort();
    if (c->value) {
        std::memcpy(p, c->value, c->size);
    } else {
        std::memset(p, 0, c->size);
    }
    m[c] = p;
    return p;
}
int __cxa_thread_atexit(void (*f)(void *), void *o, void *)
{
    rt_guard g;
    g_f[g_cur].tls_dtors.push_back({f, o});
    return 0;
}

// ------------------------------------------------------------------ pthread
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
static bool mtx_recursive(pthread_mutex_t *m)
{
    return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!g_active) return 0;
    if (g_rt == 0) sync_point();
    int r = 0;
    {
        rt_guard g;
        smutex *s = &mtx(m);
        if (s->owner == static_cast<int>(g_cur) && mtx_recursive(m)) {
            ++s->depth;
            return 0;
        }
        if (s->owner >= 0 || s->readers) {
            if (s->owner == static_cast<int>(g_cur)) {
                die(st_violation, "deadlock",
                    ("thread " + g_f[g_cur].name + " locks a mutex it already holds;" + describe_fibers()).c_str());
            }
            if (g_rt > 1) harness_error("mutex contended inside a harness scope");
            probe("mutex_contended");
            --g_rt;
            block("waiting for a mutex", [s]() { return s->owner < 0 && !s->readers; });
            ++g_rt;
        }
        s->owner = static_cast<int>(g_cur);
        s->depth = 1;
        g_f[g_cur].vc.join(s->vc);
    }
    return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!g_active) return 0;
    if (g_rt == 0) sync_point();
    rt_guard g;
    smutex *s = &mtx(m);
    if (s->owner == static_cast<int>(g_cur) && mtx_recursive(m)) {
        ++s->depth;
        return 0;
    }
    if (s->owner >= 0 || s->readers) return EBUSY;
    s->owner = static_cast<int>(g_cur);
    s->depth = 1;
    g_f[g_cur].vc.join(s->vc);
    return 0;
}
static int timed_lock(pthread_mutex_t *m)
{
    for (unsigned i = 0; i < 8u; ++i) {
        const int r = __wrap_pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        if (on()) spin_point();
    }
    return ETIMEDOUT;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *)
{
    return timed_lock(m);
}
int __wrap_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *)
{
    return timed_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!g_active) return 0;
    {
        rt_guard g;
        smutex *s = &mtx(m);
        if (s->owner != static_cast<int>(g_cur)) {
            // Locked before the simulation started, or by someone else.
            if (s->owner >= 0) die(st_violation, "bad-unlock", "a mutex is unlocked by a thread that does not hold it");
            return 0;
        }
        if (--s->depth) return 0;
        s->owner = -1;
        s->vc.join(g_f[g_cur].vc);
        release_epoch();
    }
    if (g_rt == 0) sync_point();
    return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    std::memset(m, 0, sizeof(*m));
    if (a) {
        int t = 0;
        pthread_mutexattr_gettype(a, &t);
        m->__data.__kind = t;
    }
    if (g_active) {
        rt_guard g;
        mtx(m) = smutex{};
    }
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
    if (g_active) {
        rt_guard g;
        auto it = g_mtx->find(reinterpret_cast<u64>(m));
        if (it != g_mtx->end()) {
            if (it->second.owner >= 0) die(st_violation, "mutex-destroyed-while-held", "a locked mutex is destroyed");
            g_mtx->erase(it);
        }
    }
    return 0;
}
static int rw_lock(void *m, bool write, bool try_)
{
    if (!g_active) return 0;
    if (g_rt == 0) sync_point();
    rt_guard g;
    smutex *s = &mtx(m);
    auto free_ = [s, write]() { return s->owner < 0 && (!write || !s->readers); };
    if (!free_()) {
        if (try_) return EBUSY;
        if (s->owner == static_cast<int>(g_cur)) return EDEADLK;
        --g_rt;
        block("waiting for a read-write lock", free_);
        ++g_rt;
    }
    if (write) {
        s->owner = static_cast<int>(g_cur);
        s->depth = 1;
    } else {
        ++s->readers;
    }
    g_f[g_cur].vc.join(s->vc);
    return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    return rw_lock(m, true, false);
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    return rw_lock(m, false, false);
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m)
{
    return rw_lock(m, true, true);
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m)
{
    return rw_lock(m, false, true);
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    if (!g_active) return 0;
    {
        rt_guard g;
        smutex *s = &mtx(m);
        if (s->owner == static_cast<int>(g_cur)) {
            s->owner = -1;
        } else if (s->readers) {
            --s->readers;
        }
        s->vc.join(g_f[g_cur].vc);
        release_epoch();
    }
    if (g_rt == 0) sync_point();
    return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)())
{
    if (!g_active) {
        if (*o == 0) {
            *o = 2;
            f();
        }
        return 0;
    }
    if (g_rt == 0) sync_point();
    for (;;) {
        if (*o == 2) {
            rt_guard g;
            auto it = g_sync->find(reinterpret_cast<u64>(o));
            if (it != g_sync->end()) g_f[g_cur].vc.join(it->second.vc);
            return 0;
        }
        if (*o == 0) {
            *o = 1;
            auto leave = [o](pthread_once_t v) {
                {
                    rt_guard g;
                    (*g_sync)[reinterpret_cast<u64>(o)].vc = g_f[g_cur].vc;
                    release_epoch();
                    if (g_f[g_cur].static_depth) --g_f[g_cur].static_depth;
                }
                *o = v;
            };
            {
                // NOTE: an earlier attempt which failed happens before this one.
                rt_guard g;
                auto it = g_sync->find(reinterpret_cast<u64>(o));
                if (it != g_sync->end()) g_f[g_cur].vc.join(it->second.vc);
                ++g_f[g_cur].static_depth;
            }
            try {
                f();
            } catch (...) {
                leave(0);
                throw;
            }
            leave(2);
            return 0;
        }
        block("call_once", [o]() { return *o != 1; });
    }
}
// std::call_once(): the library's own versions of these are in native thread-local storage.
emutls_control sim_once_callable asm("__emutls_v._ZSt15__once_callable") = {8, 8, {0}, nullptr};
emutls_control sim_once_call asm("__emutls_v._ZSt11__once_call") = {8, 8, {0}, nullptr};
void __once_proxy()
{
    (*static_cast<void (**)()>(__emutls_get_address(&sim_once_call)))();
}
// ------------------------------------------------------------------ condition variables and futexes (std::atomic::wait())
namespace
{
struct waiter {
    u64 addr;
    bool woken;
};
std::vector<waiter *> *g_waiters; // in the order of arrival
// Let one thread (drawn by its position) or all of the threads waiting at an address go on.
long wake(const volatile void *a, u64 n)
{
    long c = 0;
    for (auto it = g_waiters->begin(); n && it != g_waiters->end();) {
        if ((*it)->addr == reinterpret_cast<u64>(a)) {
            (*it)->woken = true;
            it = g_waiters->erase(it);
            ++c;
            --n;
        } else {
            ++it;
        }
    }
    return c;
}
// Wait for a wake(). With a time-out: give others a chance once, then give up. True: woken.
bool wait_at(const volatile void *a, const char *why, bool timed)
{
    waiter w{reinterpret_cast<u64>(a), false};
    g_waiters->push_back(&w);
    if (g_rt > 1) harness_error("waiting inside a harness scope");
    probe("condition_waits");
    --g_rt;
    if (timed) {
        for (unsigned i = 0; i < 8u && !w.woken; ++i) spin_point();
    } else {
        waiter *p = &w;
        block(why, [p]() { return p->woken; });
    }
    ++g_rt;
    if (!w.woken) {
        for (auto it = g_waiters->begin(); it != g_waiters->end(); ++it) {
            if (*it == &w) {
                g_waiters->erase(it);
                break;
            }
        }
    }
    return w.woken;
}
int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed)
{
    if (!g_active) return 0;
    bool woken;
    u64 depth;
    {
        rt_guard g;
        smutex *s = &mtx(m);
        if (s->owner != static_cast<int>(g_cur)) die(st_violation, "bad-wait", "a thread waits on a condition without holding the mutex");
        // Give up the mutex and wait as one step.
        depth = s->depth;
        s->owner = -1;
        s->depth = 0;
        s->vc.join(g_f[g_cur].vc);
        release_epoch();
        woken = wait_at(c, "waiting on a condition variable", timed);
    }
    __wrap_pthread_mutex_lock(m);
    {
        rt_guard g;
        mtx(m).depth = depth;
    }
    return woken ? 0 : ETIMEDOUT;
}
} // namespace
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    return cond_wait(c, m, false);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *)
{
    return cond_wait(c, m, true);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *)
{
    return cond_wait(c, m, true);
}
static int cond_wake(pthread_cond_t *c, u64 n)
{
    if (!g_active) return 0;
    if (g_rt == 0) sync_point();
    rt_guard g;
    wake(c, n);
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
    return cond_wake(c, 1);
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
    return cond_wake(c, ~0ull);
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *)
{
    std::memset(c, 0, sizeof(*c));
    return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
    if (g_active) {
        rt_guard g;
        for (auto *w : *g_waiters) {
            if (w->addr == reinterpret_cast<u64>(c)) die(st_violation, "condition-destroyed-while-used", "a condition variable on which a thread waits is destroyed");
        }
    }
    return 0;
}
long __real_syscall(long, ...);
long __wrap_syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto &x : a) x = va_arg(ap, long);
    va_end(ap);
    if (n != SYS_futex || !g_active) return __real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    auto *addr = reinterpret_cast<volatile int *>(a[0]);
    const int op = static_cast<int>(a[1]) & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (g_rt == 0) sync_point();
    rt_guard g;
    switch (op) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET:
        if (*addr != static_cast<int>(a[2])) {
            errno = EAGAIN;
            return -1;
        }
        if (wait_at(addr, "waiting on an atomic", a[3] != 0)) return 0;
        errno = ETIMEDOUT;
        return -1;
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET:
        return wake(addr, static_cast<u64>(static_cast<unsigned>(a[2])));
    default:
        errno = ENOSYS;
        return -1;
    }
}
int __wrap_sched_yield()
{
    if (on()) spin_point();
    return 0;
}
int __wrap_nanosleep(const struct timespec *, struct timespec *)
{
    if (on()) spin_point();
    return 0;
}
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *)
{
    if (on()) spin_point();
    return 0;
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *arg)
{
    if (!g_active) return EAGAIN;
    int id = sim::spawn("std::thread", [f, arg]() { f(arg); });
    *t = static_cast<pthread_t>(id + 1);
    return 0;
}
int __wrap_pthread_join(pthread_t t, void **r)
{
    sim::join(static_cast<int>(t) - 1);
    if (r) *r = nullptr;
    return 0;
}
int __wrap_pthread_detach(pthread_t)
{
    return 0;
}
pthread_t __wrap_pthread_self()
{
    return static_cast<pthread_t>(g_cur + 1);
}
// std::thread::hardware_concurrency()
unsigned __wrap__ZNSt6thread20hardware_concurrencyEv()
{
    probe("hardware_concurrency_calls");
    if (g_hwc_fn) return g_hwc_fn();
    return g_hwc;
}

int __wrap_dladdr(const void *p, Dl_info *o)
{
    if (g_active && g_rt == 0) {
        rt_guard g;
        if (fault_site(f_sym, 1)) {
            std::memset(o, 0, sizeof(*o));
            return 0;
        }
    }
    return do_dladdr(p, o);
}
[[noreturn]] void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
    char b[1024];
    const char *s = std::strrchr(f, '/');
    // NOTE: the enclosing function's signature may be very long, keep only its beginning.
    std::snprintf(b, sizeof(b), "assertion failed%s: %.400s (%s:%u, %.400s)", sim::tasks::cancelled_here() ? " in a cancelled task group" : "", e,
                  s ? s + 1 : f, l, fn ? fn : "");
    die(st_violation, "assert", b);
}
} // extern "C"

// ------------------------------------------------------------------ allocation
static void *sim_new(std::size_t n, bool nothrow)
{
    if (!g_active || g_rt > 0) {
        void *p = std::malloc(n ? n : 1);
        if (!p) std::abort();
        return p;
    }
    ++g_rt;
    const bool fail = g_plan[f_alloc].armed && fault_site(f_alloc, 1) != 0;
    void *p = fail ? nullptr : heap_alloc(n);
    --g_rt;
    if (!p && !nothrow) {
        // NOTE: the exception object comes from malloc, as usual.
        throw std::bad_alloc();
    }
    if (p) g_ehash = mix(g_ehash, n);
    return p;
}
static void sim_delete(void *p, void *pc)
{
    if (!p) return;
    const u64 a = reinterpret_cast<u64>(p);
    if (a - REGION < HEAP_SIZE) {
        ++g_rt;
        heap_free(p, pc);
        --g_rt;
    } else {
        std::free(p);
    }
}
void *operator new(std::size_t n)
{
    return sim_new(n, false);
}
void *operator new[](std::size_t n)
{
    return sim_new(n, false);
}
void *operator new(std::size_t n, const std::nothrow_t &) noexcept
{
    return sim_new(n, true);
}
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept
{
    return sim_new(n, true);
}
void operator delete(void *p) noexcept
{
    sim_delete(p, PC);
}
void operator delete[](void *p) noexcept
{
    sim_delete(p, PC);
}
void operator delete(void *p, std::size_t) noexcept
{
    sim_delete(p, PC);
}
void operator delete[](void *p, std::size_t) noexcept
{
    sim_delete(p, PC);
}
void operator delete(void *p, const std::nothrow_t &) noexcept
{
    sim_delete(p, PC);
}
void operator delete[](void *p, const std::nothrow_t &) noexcept
{
    sim_delete(p, PC);
}
// Over-aligned: plain 16-byte blocks are enough for alignments up to 16; larger ones go to the libc.
void *operator new(std::size_t n, std::align_val_t al)
{
    if (static_cast<std::size_t>(al) <= 16) return sim_new(n, false);
    void *p = nullptr;
    if (on()) {
        rt_guard g;
        if (g_plan[f_alloc].armed && fault_site(f_alloc, 1)) throw std::bad_alloc();
    }
    if (posix_memalign(&p, static_cast<std::size_t>(al), n ? n : 1)) throw std::bad_alloc();
    return p;
}
void *operator new[](std::size_t n, std::align_val_t al)
{
    return operator new(n, al);
}
void operator delete(void *p, std::align_val_t) noexcept
{
    sim_delete(p, PC);
}
void operator delete[](void *p, std::align_val_t) noexcept
{
    sim_delete(p, PC);
}
void operator delete(void *p, std::size_t, std::align_val_t) noexcept
{
    sim_delete(p, PC);
}
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept
{
    sim_delete(p, PC);
}

// ================================================================== driver
namespace
{
[[noreturn]] void aborted()
{
    ++g_rt;
    probe("ended_by_design");
    SH->allocs = g_nalloc;
    SH->exited = 1;
    finish(st_ok);
}
void on_signal(int sig, siginfo_t *si, void *)
{
    if (sig == SIGABRT && g_may_abort) aborted();
    char b[256];
    std::snprintf(b, sizeof(b), "signal %d at address %p in thread %u", sig, si ? si->si_addr : nullptr, g_cur);
    die(st_violation, sig == SIGABRT ? "abort" : (sig == SIGALRM ? "no-progress" : "crash"), b);
}
[[noreturn]] void on_terminate()
{
    if (g_may_abort) aborted();
    ++g_rt;
    std::string m = "std::terminate() was called";
    if (auto e = std::current_exception()) {
        try {
            std::rethrow_exception(e);
        } catch (const std::exception &x) {
            m += std::string(" while handling: ") + x.what();
        } catch (...) {
            m += " while handling an unknown exception";
        }
    }
    die(st_violation, "terminate", m.c_str());
}

void map_fixed(u64 a, u64 n)
{
    void *p = ::mmap(reinterpret_cast<void *>(a), n, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void *>(a)) {
        std::fprintf(stderr, "sim: cannot map 0x%llx\n", static_cast<unsigned long long>(a));
        std::exit(3);
    }
}

bool g_exit_ok = false;
void (*g_wl)() = nullptr;
std::vector<std::function<void()>> &final_fns()
{
    static auto *v = new std::vector<std::function<void()>>;
    return *v;
}

} // namespace
void sim::at_final(std::function<void()> f)
{
    rt_guard g;
    final_fns().push_back(std::move(f));
}
namespace
{
// Runs last of all exit handlers (it is registered first).
void final_handler()
{
    if (!g_active) return;
    ++g_rt;
    SH->allocs = g_nalloc;
    if (g_exit_ok) {
        for (auto &f : final_fns()) f();
        if (g_live) {
            // describe a few leaked blocks
            std::string m = std::to_string(g_live) + " block(s), " + std::to_string(g_live_b) + " byte(s) are never freed; sizes:";
            int k = 0;
            for (u64 a = REGION + 4096; a < g_brk && k < 6;) {
                hdr *h = reinterpret_cast<hdr *>(a);
                if (h->magic == MAGIC) {
                    m += " " + std::to_string(h->size) + "(#" + std::to_string(h->seq) + ")";
                    ++k;
                }
                a += h->cls;
            }
            die(st_violation, "leak", m.c_str());
        }
        SH->exited = 1;
        finish(st_ok);
    }
}
struct first_exit {
    first_exit()
    {
        std::atexit(final_handler);
    }
};
__attribute__((init_priority(101))) first_exit g_first_exit;

void fiber0()
{
    g_wl();
    join_all();
    stop_workers();
    for (int k = 0; k < f_nkinds; ++k) disarm(static_cast<fault_kind>(k));
    {
        rt_guard g;
        run_tls_dtors(g_f[0]);
        g_exit_ok = true;
        event("exit");
    }
    std::exit(0);
}

[[noreturn]] void child(u64 sd)
{
    g_seed = sd;
    rng r(sd * 0x9E3779B97F4A7C15ull + 12345);
    g_rw = rng(r.next());
    g_rs = rng(r.next());
    g_rf = rng(r.next());
    rng cfg(r.next());
    for (auto &f : g_in.f) g_fin[{f.kind, f.idx}] = f.val;

    struct sigaction sa {};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    stack_t ss{};
    static char alt[65536];
    ss.ss_sp = alt;
    ss.ss_size = sizeof(alt);
    sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    // Watchdog against real hangs only (uninstrumented loops); generous.
    struct rlimit rl {120, 125};
    setrlimit(RLIMIT_CPU, &rl);

    // Schedule strategy. In a replay only the recorded deviations matter.
    switch (cfg.below(8)) {
        case 0:
            st_kind = 2;
            st_sync_den = 64;
            st_mem = 0;
            break;
        case 1:
        case 2:
            st_kind = 1;
            st_mem = 0;
            for (u64 i = 0, n = 1 + cfg.below(4); i < n; ++i) {
                static const u64 mag[] = {200, 2000, 20000, 200000, 2000000};
                st_change.push_back(1 + cfg.below(mag[cfg.below(5)]));
            }
            break;
        default: {
            static const u64 dens[] = {2, 3, 4, 8, 16};
            static const u64 mems[] = {0, 0, 32, 256, 2048, 16384};
            st_sync_den = dens[cfg.below(5)];
            st_mem = mems[cfg.below(6)];
        }
    }
    static const u64 reuse[] = {~0ull, ~0ull, 0, 1u << 16};
    g_reuse_after = reuse[cfg.below(4)];
    g_fill = cfg.below(2) ? 0xa5 : 0x00;
    if (g_in.replay) {
        // The heap behaviour is part of what the seed decides: keep it.
        st_kind = 0;
        st_change.clear();
        st_mem = 0;
    }
    g_sync = new std::unordered_map<u64, sync_var>;
    g_mtx = new std::map<u64, smutex>;
    g_waiters = new std::vector<waiter *>;
    g_freelist = new std::map<u64, std::vector<u64>>;
    g_static_blocks = new std::set<u64>;
    tasks::g_pool = new std::vector<std::unique_ptr<tasks::task>>;
    make_fiber("main", [] { fiber0(); });
    // The program under test is multi-threaded, though the process is not:
    // without this libstdc++ would count the references of a shared_ptr with
    // plain instructions.
    __libc_single_threaded = 0;
    g_active = true;
    g_cur = 0;
    set_next();
    *eh_now() = eh_globals{};
    sim_switch(&g_main_sp, g_f[0].sp);
    harness_error("main context resumed");
}

struct run_opts {
    u64 seed = 0;
    trace_in in;
};

void clear_shared()
{
    // Only the parts a run can have written.
    const u32 nw = SH->nw, ns = SH->ns, nf = SH->nf;
    (void)nw;
    (void)ns;
    (void)nf;
    std::memset(static_cast<void *>(SH), 0, offsetof(shared, states));
    SH->nw = SH->ns = SH->nf = 0;
}

void run_one(const run_opts &o)
{
    clear_shared();
    std::fflush(nullptr);
    pid_t p = ::fork();
    if (p < 0) {
        std::perror("fork");
        std::exit(3);
    }
    if (p == 0) {
        g_in = o.in;
        child(o.seed);
    }
    int st = 0;
    while (::waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    if (SH->status == st_none) {
        if (WIFSIGNALED(st)) {
            SH->status = st_violation;
            std::snprintf(SH->cls, sizeof(SH->cls), "%s", WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? "no-progress" : "crash");
            std::snprintf(SH->msg, sizeof(SH->msg), "the process was ended by signal %d", WTERMSIG(st));
        } else {
            SH->status = st_violation;
            std::snprintf(SH->cls, sizeof(SH->cls), "early-exit");
            std::snprintf(SH->msg, sizeof(SH->msg), "the process exited (status %d) before the run was complete", WEXITSTATUS(st));
        }
    }
}

std::string jesc(const char *s)
{
    std::string r;
    for (; *s; ++s) {
        if (*s == '"' || *s == '\\') {
            r += '\\';
            r += *s;
        } else if (static_cast<u8>(*s) < 32 || static_cast<u8>(*s) > 126) {
            char b[8];
            std::snprintf(b, sizeof(b), "\\u%04x", static_cast<u8>(*s));
            r += b;
        } else {
            r += *s;
        }
    }
    return r;
}

void print_result(FILE *o, u64 seed, bool traces)
{
    static const char *kn[] = {"alloc_failure", "coefficient_exception", "stream_error", "short_write", "byte_corruption", "truncation", "hw_concurrency", "key_exception", "stall", "crash", "symbol_lookup_failure", "constructor_failure"};
    std::fprintf(o, "{\"seed\":%llu,\"status\":\"%s\",\"cls\":\"%s\",\"msg\":\"%s\",\"ticks\":%llu,\"switches\":%llu,\"fibers\":%llu,\"event_hash\":\"%016llx\",\"sched_hash\":\"%016llx\",\"allocs\":%llu,\"max_live\":%llu,\"nontrivial\":%u,\"exited\":%u",
                 (unsigned long long)seed, SH->status == st_ok ? "ok" : (SH->status == st_violation ? "violation" : "error"),
                 jesc(SH->cls).c_str(), jesc(SH->msg).c_str(), (unsigned long long)SH->ticks, (unsigned long long)SH->switches,
                 (unsigned long long)SH->fibers, (unsigned long long)SH->event_hash, (unsigned long long)SH->sched_hash,
                 (unsigned long long)SH->allocs, (unsigned long long)SH->max_live, SH->nontrivial, SH->exited);
    std::fprintf(o, ",\"fired\":{");
    bool c = false;
    for (int k = 0; k < f_nkinds; ++k) {
        if (SH->fired[k] || SH->sites[k]) {
            std::fprintf(o, "%s\"%s\":[%llu,%llu]", c ? "," : "", kn[k], (unsigned long long)SH->fired[k], (unsigned long long)SH->sites[k]);
            c = true;
        }
    }
    std::fprintf(o, "},\"probes\":{");
    for (u32 i = 0; i < SH->nprobe; ++i)
        std::fprintf(o, "%s\"%s\":%llu", i ? "," : "", jesc(SH->pname[i]).c_str(), (unsigned long long)SH->pval[i]);
    std::fprintf(o, "}");
    if (traces) {
        std::fprintf(o, ",\"W\":[");
        for (u32 i = 0; i < SH->nw; ++i) std::fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)SH->w[i]);
        std::fprintf(o, "],\"S\":[");
        for (u32 i = 0; i < SH->ns; ++i) std::fprintf(o, "%s[%llu,%u]", i ? "," : "", (unsigned long long)SH->s[i].tick, SH->s[i].target);
        std::fprintf(o, "],\"F\":[");
        for (u32 i = 0; i < SH->nf; ++i) std::fprintf(o, "%s[%u,%llu,%u]", i ? "," : "", SH->f[i].kind, (unsigned long long)SH->f[i].idx, SH->f[i].val);
        std::fprintf(o, "]");
    }
    std::fprintf(o, "}\n");
    std::fflush(o);
}

double wall()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

trace_in from_shared()
{
    trace_in t;
    t.replay = true;
    t.w.assign(SH->w, SH->w + SH->nw);
    t.s.assign(SH->s, SH->s + SH->ns);
    t.f.assign(SH->f, SH->f + SH->nf);
    return t;
}

// Does the trace still fail with the same class?
// Known findings of this property and workload: SIM_KNOWN holds lines "class<TAB>regular expression".
bool is_known()
{
    static const auto *l = [] {
        auto *r = new std::vector<std::pair<std::string, std::regex>>;
        if (const char *t = std::getenv("SIM_KNOWN")) {
            std::istringstream iss(t);
            for (std::string line; std::getline(iss, line);) {
                const auto i = line.find('\t');
                if (i != std::string::npos) r->emplace_back(line.substr(0, i), std::regex(line.substr(i + 1)));
            }
        }
        return r;
    }();
    if (SH->status != st_violation) return false;
    for (auto &p : *l)
        if (p.first == SH->cls && std::regex_search(SH->msg, p.second)) return true;
    return false;
}

bool still(run_opts &o, const std::string &cls)
{
    run_one(o);
    return SH->status == st_violation && cls == SH->cls && !is_known();
}

template <typename V, typename Test>
void ddmin(V &v, Test test, double deadline)
{
    std::size_t chunk = std::max<std::size_t>(1, v.size() / 2);
    while (!v.empty() && wall() < deadline) {
        bool any = false;
        for (std::size_t i = 0; i < v.size() && wall() < deadline;) {
            V c(v);
            c.erase(c.begin() + static_cast<std::ptrdiff_t>(i), c.begin() + static_cast<std::ptrdiff_t>(std::min(v.size(), i + chunk)));
            if (test(c)) {
                v = std::move(c);
                any = true;
            } else {
                i += chunk;
            }
        }
        if (chunk == 1 && !any) break;
        if (!any || chunk > v.size()) chunk = std::max<std::size_t>(1, chunk / 2);
    }
}

void minimise(run_opts &o, const std::string &cls, double secs)
{
    const double end = wall() + secs;
    auto test_with = [&](auto member) {
        return [&o, &cls, member](const auto &c) {
            run_opts t = o;
            t.in.*member = c;
            return still(t, cls);
        };
    };
    // Fewer scheduling deviations first, then fewer faults, then a smaller workload, then again.
    for (int round = 0; round < 3 && wall() < end; ++round) {
        const auto before = o.in.w.size() + o.in.s.size() + o.in.f.size();
        {
            // whole-schedule removal is the common win
            run_opts t = o;
            t.in.s.clear();
            if (!o.in.s.empty() && still(t, cls)) o = t;
        }
        ddmin(o.in.f, test_with(&trace_in::f), std::min(end, wall() + secs / 6));
        {
            // truncate / delete / zero workload choices
            ddmin(o.in.w, test_with(&trace_in::w), std::min(end, wall() + secs / 4));
            for (std::size_t i = 0; i < o.in.w.size() && wall() < end - secs / 3; ++i) {
                if (!o.in.w[i]) continue;
                for (u64 cand : {u64(0), u64(1), o.in.w[i] / 2, o.in.w[i] - 1}) {
                    if (cand >= o.in.w[i]) continue;
                    run_opts t = o;
                    t.in.w[i] = cand;
                    if (still(t, cls)) {
                        o = t;
                        break;
                    }
                }
            }
        }
        ddmin(o.in.s, test_with(&trace_in::s), std::min(end, wall() + secs / 3));
        if (o.in.w.size() + o.in.s.size() + o.in.f.size() == before) break;
    }
    // Re-record the normalised trace of what is left.
    run_one(o);
    if (SH->status == st_violation && cls == SH->cls) {
        auto t = from_shared();
        run_opts n = o;
        n.in = t;
        if (still(n, cls)) o = n;
    }
    run_one(o);
}

bool read_trace(const char *path, run_opts &o, std::string &wl, std::string &cls, std::string &hash)
{
    // The replay file is JSON written by the Python driver, which also writes
    // the same content as lines for this reader (path + ".trace").
    FILE *f = std::fopen(path, "r");
    if (!f) return false;
    char key[64];
    o.in.replay = true;
    while (std::fscanf(f, "%63s", key) == 1) {
        std::string k = key;
        char buf[256];
        if (k == "workload") {
            if (std::fscanf(f, "%255s", buf) == 1) wl = buf;
        } else if (k == "seed") {
            unsigned long long v;
            if (std::fscanf(f, "%llu", &v) == 1) o.seed = v;
        } else if (k == "cls") {
            if (std::fscanf(f, "%255s", buf) == 1) cls = buf;
        } else if (k == "hash") {
            if (std::fscanf(f, "%255s", buf) == 1) hash = buf;
        } else if (k == "param") {
            if (std::fscanf(f, "%255s", buf) == 1) g_param = buf;
        } else if (k == "w") {
            unsigned long long v;
            if (std::fscanf(f, "%llu", &v) == 1) o.in.w.push_back(v);
        } else if (k == "s") {
            unsigned long long v;
            unsigned t;
            if (std::fscanf(f, "%llu %u", &v, &t) == 2) o.in.s.push_back({v, t, 0});
        } else if (k == "f") {
            unsigned a, c;
            unsigned long long b;
            if (std::fscanf(f, "%u %llu %u", &a, &b, &c) == 3) o.in.f.push_back({a, c, b});
        }
    }
    std::fclose(f);
    return true;
}

void find_wl(const std::string &n)
{
    for (auto &p : registry()) {
        if (p.first == n) {
            g_wl = p.second.first;
            return;
        }
    }
    std::fprintf(stderr, "sim: unknown workload %s\n", n.c_str());
    std::exit(3);
}

} // namespace

// Modes:
//   list
//   batch <workload> <first seed> <count> <seconds> <step>   one JSON line per run that matters + a summary line
//   one <workload> <seed>                                      run one seed, print the result with traces
//   replay <trace file>                                        run a trace file
//   hashes <workload> <first seed> <count>                    outcome and history hash of each seed
//   min <trace file> <seconds>                                 minimise, print the result with traces
int main(int argc, char **argv)
{
    if (argc < 2) return 3;
    const std::string mode = argv[1];
    if (const char *t = std::getenv("VERIF_TIER")) g_tier = t;
    if (const char *t = std::getenv("SIM_PARAM")) g_param = t;
    g_bt = std::getenv("SIM_BT") != nullptr;
    if (const char *t = std::getenv("SIM_WATCH")) g_watch = std::strtoull(t, nullptr, 16);
    if (mode == "list") {
        for (auto &p : registry()) std::printf("%s\t%s\n", p.first.c_str(), p.second.second.c_str());
        return 0;
    }
    image_lo = reinterpret_cast<u64>(&__data_start) & ~7ull;
    image_hi = (reinterpret_cast<u64>(&_end) + 7) & ~7ull;
    map_fixed(REGION, REGION_SIZE);
    map_fixed(SHADOW, REGION_SIZE * NSLOT);
    map_fixed(POISON, HEAP_SIZE / 8);
    map_fixed(GSHADOW, (image_hi - image_lo) * NSLOT + 4096);
    SH = static_cast<shared *>(
        ::mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (SH == MAP_FAILED) return 3;
    if (mode == "batch" && argc >= 7) {
        find_wl(argv[2]);
        const u64 first = std::strtoull(argv[3], nullptr, 10), count = std::strtoull(argv[4], nullptr, 10),
                  step = std::strtoull(argv[6], nullptr, 10);
        const double end = wall() + std::atof(argv[5]);
        u64 runs = 0, ok = 0, nontriv = 0, ticks = 0, switches = 0, viol = 0, errs = 0, known = 0;
        u64 fired[f_nkinds] = {}, sites_[f_nkinds] = {}, with_fault = 0;
        std::map<std::string, std::pair<u64, u64>> pr; // total, runs
        std::unordered_set<u64> scheds, states, hashes;
        for (u64 i = 0; i < count && wall() < end; ++i) {
            run_opts o;
            o.seed = first + i * step;
            run_one(o);
            ++runs;
            ticks += SH->ticks;
            switches += SH->switches;
            if (SH->status == st_ok) ++ok;
            if (is_known()) {
                if (!known++) print_result(stdout, o.seed, true);
                continue;
            }
            if (SH->status == st_violation) ++viol;
            if (SH->status == st_harness_error) ++errs;
            if (SH->nontrivial) {
                if (hashes.insert(SH->event_hash).second) ++nontriv;
            }
            scheds.insert(SH->sched_hash);
            for (u32 k = 0; k < SH->nstates; ++k) states.insert(SH->states[k]);
            bool wf = false;
            for (int k = 0; k < f_nkinds; ++k) {
                fired[k] += SH->fired[k];
                sites_[k] += SH->sites[k];
                wf |= SH->fired[k] != 0;
            }
            with_fault += wf;
            for (u32 k = 0; k < SH->nprobe; ++k) {
                auto &x = pr[SH->pname[k]];
                x.first += SH->pval[k];
                x.second += SH->pval[k] != 0;
            }
            if (SH->status != st_ok) {
                print_result(stdout, o.seed, true);
                if (viol + errs >= 4) break;
            } else if (i < 1) {
                print_result(stdout, o.seed, false);
            }
        }
        static const char *kn[] = {"alloc_failure", "coefficient_exception", "stream_error", "short_write", "byte_corruption", "truncation", "hw_concurrency", "key_exception", "stall", "crash", "symbol_lookup_failure", "constructor_failure"};
        std::printf("{\"summary\":true,\"runs\":%llu,\"ok\":%llu,\"violations\":%llu,\"errors\":%llu,\"known\":%llu,\"nontrivial\":%llu,\"ticks\":%llu,\"switches\":%llu,\"distinct_schedules\":%zu,\"distinct_states\":%zu,\"distinct_histories\":%zu,\"runs_with_fault\":%llu,\"fired\":{",
                    (unsigned long long)runs, (unsigned long long)ok, (unsigned long long)viol, (unsigned long long)errs, (unsigned long long)known, (unsigned long long)nontriv,
                    (unsigned long long)ticks, (unsigned long long)switches, scheds.size(), states.size(), hashes.size(), (unsigned long long)with_fault);
        bool c = false;
        for (int k = 0; k < f_nkinds; ++k)
            if (sites_[k] || fired[k]) {
                std::printf("%s\"%s\":[%llu,%llu]", c ? "," : "", kn[k], (unsigned long long)fired[k], (unsigned long long)sites_[k]);
                c = true;
            }
        std::printf("},\"probes\":{");
        c = false;
        for (auto &p : pr) {
            std::printf("%s\"%s\":[%llu,%llu]", c ? "," : "", jesc(p.first.c_str()).c_str(), (unsigned long long)p.second.first, (unsigned long long)p.second.second);
            c = true;
        }
        std::printf("}}\n");
        return 0;
    }
    if (mode == "hashes" && argc >= 5) {
        // hashes <workload> <first seed> <count>: for the determinism self-check
        find_wl(argv[2]);
        const u64 first = std::strtoull(argv[3], nullptr, 10), count = std::strtoull(argv[4], nullptr, 10);
        for (u64 i = 0; i < count; ++i) {
            run_opts o;
            o.seed = first + i;
            run_one(o);
            std::printf("%llu %u %016llx %016llx %llu\n", (unsigned long long)o.seed, SH->status, (unsigned long long)SH->event_hash,
                        (unsigned long long)SH->sched_hash, (unsigned long long)SH->ticks);
        }
        return 0;
    }
    if (mode == "one" && argc >= 4) {
        find_wl(argv[2]);
        run_opts o;
        o.seed = std::strtoull(argv[3], nullptr, 10);
        run_one(o);
        print_result(stdout, o.seed, argc > 4);
        return SH->status == st_ok ? 0 : 1;
    }
    if ((mode == "replay" || mode == "min") && argc >= 3) {
        run_opts o;
        std::string wl, cls, hash;
        if (!read_trace(argv[2], o, wl, cls, hash)) return 3;
        find_wl(wl);
        if (mode == "min") {
            minimise(o, cls, argc > 3 ? std::atof(argv[3]) : 20.);
        } else {
            run_one(o);
        }
        print_result(stdout, o.seed, true);
        return SH->status == st_ok ? 0 : 1;
    }
    return 3;
}
