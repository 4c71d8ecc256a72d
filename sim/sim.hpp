// Deterministic simulator: public interface used by workloads and by the shadow
// TBB headers. One seed decides the workload (W), the schedule (S) and the
// faults (F); see DESIGN.md.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <string>
#include <utility>

namespace sim
{
// ---- workload choices (recorded; replayed and shrunk as a list of integers)
std::uint64_t draw(std::uint64_t n);                       // uniform in [0, n)
std::int64_t range(std::int64_t lo, std::int64_t hi);      // inclusive
inline bool chance(unsigned num, unsigned den)
{
    // NOTE: the value 0 (what shrinking tends to) means "no".
    return draw(den) >= den - num;
}

// ---- simulated threads
int spawn(const char *name, std::function<void()> f);
void join(int id);
void join_all();
int self();
void yield();
void set_workers(unsigned n);                              // simulated TBB worker threads
std::uint64_t now();                                       // event sequence number (never perturbs anything)

// ---- history/event log (feeds the event hash; never draws)
void event(const char *tag, std::uint64_t a = 0, std::uint64_t b = 0);
void event_str(const char *tag, const std::string &s);
// ---- reach probes
void probe(const char *name, std::uint64_t n = 1);
void nontrivial();                                          // this run exercised what its property is about
void note_state(std::uint64_t h);                           // a state reached (distinct count is reported)

// ---- violations
[[noreturn]] void violation(const std::string &cls, const std::string &msg);
[[noreturn]] void violation_c(const char *cls, const char *msg);
// NOTE: a literal message costs no allocation unless the check fails.
inline void check(bool c, const char *cls, const char *msg)
{
    if (!c) violation_c(cls, msg);
}
inline void check(bool c, const char *cls, const std::string &msg)
{
    if (!c) violation_c(cls, msg.c_str());
}
bool known(const char *id);                                 // not used for control flow of checks; see findings

// ---- faults
enum fault_kind { f_alloc = 0, f_cf_throw, f_stream_fail, f_stream_short, f_stream_flip, f_stream_trunc, f_hc, f_key_throw, f_stall, f_crash, f_sym, f_ctor, f_nkinds };
// A fault site: returns 0 (nothing) or 1 + parameter in [0, nparam). Under a
// generating run it fires according to the plan armed for that kind.
std::uint64_t fault(fault_kind k, std::uint64_t nparam = 1);
// Arm: fire at the nth (1-based) site of this kind from now on; 0 disarms.
void arm_nth(fault_kind k, std::uint64_t nth);
// Arm: never fire, only count the sites passed (they are counted only while armed).
void arm_count(fault_kind k);
// Arm: fire with probability 1/den at every site.
void arm_prob(fault_kind k, std::uint64_t den);
// The process may be ended by abort() or std::terminate() from now on: by design, not a violation.
void may_abort();
void disarm(fault_kind k);
void note_fault(fault_kind k);                               // count a fault the workload itself placed
std::uint64_t fired(fault_kind k);                          // how many times this kind fired so far
std::uint64_t sites(fault_kind k);                          // how many sites of this kind were passed so far
std::uint64_t fault_draw(std::uint64_t n);                  // a draw from the fault PRNG (recorded as workload choice)
struct armed_nth {
    fault_kind k;
    armed_nth(fault_kind k_, std::uint64_t n) : k(k_)
    {
        arm_nth(k, n);
    }
    ~armed_nth()
    {
        disarm(k);
    }
};
// Uncounted region: allocations in it are the harness's own (never fail, not leak-checked).
struct harness {
    harness();
    ~harness();
};
bool in_rt();
// spawn(), with the closure in the harness's own memory (it cannot fail).
template <class F>
int go(const char *name, F f)
{
    std::function<void()> g;
    {
        harness h;
        g = std::move(f);
    }
    return spawn(name, std::move(g));
}

// ---- memory accounting
std::uint64_t live_blocks();
// Without the blocks of function-local statics and those held directly by this thread's thread-local objects
// (which live until the process or the thread ends).
std::uint64_t live_object_blocks();
std::uint64_t live_bytes();
std::uint64_t alloc_count();

// Called after every exit handler of the program has run, before the final leak check (harness context).
void at_final(std::function<void()> f);
// Load this executable's symbol table, so that dladdr() resolves (call during static initialisation).
bool load_symbols();

// ---- knobs
void set_hw_concurrency(unsigned n);                       // what std::thread::hardware_concurrency() returns
void set_hw_concurrency_fn(unsigned (*f)());
void set_split(unsigned policy, std::uint64_t salt);       // how simulated TBB splits ranges
void expect_deadlock_free(bool);
void set_race_detection(bool);
void disable_preempt(bool);
const char *tier();
std::uint64_t seed();
const std::string &param();                                 // free-form workload parameter

// ---- happens-before tokens (for harness-made synchronisation)
struct hb {
    void *p;
    hb();
    ~hb();
    hb(const hb &) = delete;
    hb &operator=(const hb &) = delete;
    void release();
    void acquire();
};

// ---- workload registry
struct registrar {
    registrar(const char *name, void (*fn)(), const char *desc);
};
#define SIM_WORKLOAD(id, desc)                                                                                         \
    static void wl_##id();                                                                                             \
    static ::sim::registrar reg_##id(#id, &wl_##id, desc);                                                             \
    static void wl_##id()

// ---- simulated task scheduler (used by stubs/tbb)
namespace tasks
{
struct group {
    void *impl;
    // A detached group is not cancelled along with the group around it.
    explicit group(bool detached = false);
    ~group();
    void cancel();
    group(const group &) = delete;
    group &operator=(const group &) = delete;
    // Submit a task. The callable is stored in simulator memory.
    void run(std::function<void()> f);
    // Run f here, as part of the group (exceptions are captured like any other task's).
    // NOTE: no std::function here, it would allocate in the caller's context.
    template <typename F>
    void run_here(const F &f)
    {
        run_here_([](const void *p) { (*static_cast<const F *>(p))(); }, &f);
    }
    void run_here_(void (*f)(const void *), const void *p);
    // Wait for every task, executing other tasks of the same arena meanwhile; rethrows.
    void wait();
    bool cancelled() const;
};
bool cancelled_here();                               // is the current task's group (or one around it) cancelled?
bool split(std::uint64_t size, std::uint64_t depth); // should a range of this size be split further?
bool stolen();                                       // is the right half of a reduction stolen?
std::uint64_t perm(std::uint64_t n);                 // a scheduling-level draw
void isolate_begin(std::uint64_t &old);
void isolate_end(std::uint64_t old);
void algo(const char *name);
void alloc_task();                                   // TBB needs memory for a task; throws std::bad_alloc if that fails
} // namespace tasks
} // namespace sim
#endif
