// PARTS 2
// LIBBACKTRACE 1
// C16: stack traces (part 0: the implementation on Boost.Stacktrace, part 1: the one on libbacktrace, which is simulated). Compiled without optimisation (the library itself with), so that frames are what they seem.
#include <dlfcn.h>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <unwind.h>
#include <vector>

#include <obake/detail/to_string.hpp>
#include <obake/exceptions.hpp>
#include <obake/stack_trace.hpp>

#if PART == 1
#include <backtrace.h>
#endif

#include <cxxabi.h>
#include <sim.hpp>

namespace
{
const bool symbols_loaded = sim::load_symbols();
const char notice[] = "<Stack trace generation has been disabled at runtime>";

// An independent walk of the stack: the names of the functions, innermost first.
struct walk {
    const void *pc[1024];
    unsigned n = 0;
};
[[maybe_unused]] bool explained(const std::string &s)
{
    return s.compare(0, 44, "The stack trace could not be generated becau") == 0;
}
_Unwind_Reason_Code step(_Unwind_Context *c, void *p)
{
    auto *w = static_cast<walk *>(p);
    const auto ip = _Unwind_GetIP(c);
    if (!ip || w->n == 1024) return _URC_END_OF_STACK;
    w->pc[w->n++] = reinterpret_cast<const void *>(ip - 1);
    return _URC_NO_REASON;
}
std::string name_of(const void *p)
{
    sim::harness h;
    Dl_info i;
    if (!dladdr(p, &i) || !i.dli_sname) return "";
    int st = 0;
    char *d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string r = d ? d : i.dli_sname;
    std::free(d);
    return r;
}

#if PART == 1
std::string raw_name_of(const void *p)
{
    sim::harness h;
    Dl_info i;
    return dladdr(p, &i) && i.dli_sname ? i.dli_sname : "";
}
// The simulated libbacktrace. A state may be used by one thread at a time; there is a line number for every address.
int line_of(const void *p)
{
    return static_cast<int>(reinterpret_cast<std::uintptr_t>(p) % 997u) + 1;
}
// The name of the file: of any length, so that any row can be the widest one.
const char *file_of(const void *p)
{
    static const char *const names[] = {"dir/file.cpp", "f.c", "a/rather/long/path/to/some/include/file.hpp", "m.cpp", "dir/another_file.cpp", "dir/sub/x.hpp", "/usr/include/y"};
    return names[(reinterpret_cast<std::uintptr_t>(p) >> 2) % 7u];
}
} // namespace
struct backtrace_state {
    int creator = 0;
    bool busy = false;
};
extern "C" backtrace_state *backtrace_create_state(const char *, int threaded, backtrace_error_callback, void *)
{
    sim::yield();
    if (sim::fault(sim::f_sym)) return nullptr;
    sim::check(!threaded, "backend", "only states for single threads are simulated");
    sim::harness h;
    auto *s = new backtrace_state;
    s->creator = sim::self();
    return s;
}
extern "C" int backtrace_full(backtrace_state *s, int skip, backtrace_full_callback cb, backtrace_error_callback, void *data)
{
    sim::check(!s->busy, "backend-misused", "two threads use the same state of libbacktrace at the same time");
    s->busy = true;
    sim::yield();
    walk w;
    _Unwind_Backtrace(&step, &w);
    int r = 0;
    // Frame 0 is the caller of this function.
    for (unsigned i = 1u + static_cast<unsigned>(skip); i < w.n && r == 0; ++i) {
        const bool lost = sim::fault(sim::f_sym);
        const std::string n = lost ? std::string() : raw_name_of(w.pc[i]);
        r = cb(data, reinterpret_cast<std::uintptr_t>(w.pc[i]), lost ? nullptr : file_of(w.pc[i]), lost ? 0 : line_of(w.pc[i]), lost || n.empty() ? nullptr : n.c_str());
        if (i % 8u == 0) sim::yield();
    }
    sim::check(s->busy, "backend-misused", "two threads use the same state of libbacktrace at the same time");
    s->busy = false;
    return r;
}
namespace
{
#endif

struct row {
    std::string idx, file, name;
    std::size_t bar1, bar2;
};
// Parse the table; false if the text is not one.
bool parse(const std::string &s, std::vector<row> &rows)
{
    std::size_t a = 0;
    while (a <= s.size()) {
        std::size_t e = s.find('\n', a);
        const std::string l = s.substr(a, e == std::string::npos ? e : e - a);
        row r;
        if (l.compare(0, 2, "# ") != 0) return false;
        r.bar1 = l.find(" | ");
        if (r.bar1 == std::string::npos) return false;
        r.bar2 = l.find(" | ", r.bar1 + 3);
        if (r.bar2 == std::string::npos) return false;
        r.idx = l.substr(2, r.bar1 - 2);
        r.file = l.substr(r.bar1 + 3, r.bar2 - r.bar1 - 3);
        r.name = l.substr(r.bar2 + 3);
        while (!r.file.empty() && r.file.back() == ' ') r.file.pop_back();
        while (!r.idx.empty() && r.idx[0] == ' ') r.idx.erase(0, 1);
        if (r.idx.empty() || r.idx.find_first_not_of("0123456789") != std::string::npos) return false;
        rows.push_back(r);
        if (e == std::string::npos) break;
        a = e + 1;
    }
    return true;
}
// names: the functions expected, innermost first. sym_ok: name look-ups were not failing.
void check_table(const std::string &s, const std::vector<std::string> &names, const std::vector<const void *> &pcs, bool sym_ok)
{
    sim::harness h;
    if (names.empty()) {
        sim::check(s.empty(), "not-empty", "skipping every frame gives '" + s + "'");
        sim::probe("all_skipped");
        return;
    }
    std::vector<row> rows;
    sim::check(parse(s, rows), "not-a-table", "the trace is not a table: " + s.substr(0, 200));
    sim::check(rows.size() == names.size(), "wrong-row-count", "the trace has " + std::to_string(rows.size()) + " rows for " + std::to_string(names.size()) + " frames");
    for (std::size_t i = 0; i < rows.size(); ++i) {
        const std::size_t k = rows.size() - 1 - i;
        sim::check(rows[i].idx == std::to_string(k), "wrong-number", "row " + std::to_string(i) + " is numbered " + rows[i].idx + " instead of " + std::to_string(k));
#if PART == 1
        const bool nameless = rows[i].name == "<unknown function>";
        // NOTE: the innermost frame was elsewhere when the stack was walked.
        if (k && sym_ok) sim::check(rows[i].file == file_of(pcs[k]) + (":" + std::to_string(line_of(pcs[k]))), "wrong-location", "row " + std::to_string(k) + " says " + rows[i].file);
#else
        const bool nameless = rows[i].name.empty();
#endif
        if (sym_ok || !nameless) sim::check(rows[i].name == names[k], "wrong-frame", "row " + std::to_string(k) + " is '" + rows[i].name + "' instead of '" + names[k] + "'");
        sim::check(rows[i].bar1 == rows[0].bar1 && rows[i].bar2 == rows[0].bar2, "misaligned", "the columns are not aligned");
    }
    if (names.size() > 128) sim::probe("deep_trace");
    if (names.size() > 10) sim::probe("two_digit_rows");
    sim::probe("tables");
}
// Does not start with the text of a table and is not the notice?
enum expectation { exp_table, exp_notice, exp_either };

struct request {
    unsigned skip;
    bool api0;       // through the default argument
    bool thrower;    // through obake_throw
    expectation exp;
    unsigned alloc_nth;
    bool sym_fault;
};
struct my_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};

__attribute__((noinline)) void leaf(const request &r)
{
    walk w;
    _Unwind_Backtrace(&step, &w);
    std::vector<std::string> names;
    std::vector<const void *> pcs;
    {
        sim::harness h;
        for (unsigned i = 0; i < w.n; ++i) names.push_back(name_of(w.pc[i]));
        pcs.assign(w.pc, w.pc + w.n);
        // The walk starts in this function (the walker itself is not a frame of it).
        std::size_t i = 0;
        while (i < names.size() && names[i].find("leaf(") == std::string::npos) ++i;
        names.erase(names.begin(), names.begin() + static_cast<std::ptrdiff_t>(i));
        pcs.erase(pcs.begin(), pcs.begin() + static_cast<std::ptrdiff_t>(i));
        const unsigned skip = r.api0 || r.thrower ? 0u : r.skip;
        names.erase(names.begin(), names.begin() + static_cast<std::ptrdiff_t>(std::min<std::size_t>(skip, names.size())));
        pcs.erase(pcs.begin(), pcs.begin() + static_cast<std::ptrdiff_t>(std::min<std::size_t>(skip, pcs.size())));
    }
    const auto f0 = sim::fired(sim::f_alloc);
    const auto s0 = sim::fired(sim::f_sym);
    if (r.alloc_nth) sim::arm_nth(sim::f_alloc, r.alloc_nth);
    if (r.sym_fault) sim::arm_prob(sim::f_sym, 3);
    bool oom = false, got = false;
    {
        std::string s;
        try {
            if (r.thrower) {
                try {
                    obake_throw(my_error, "the reason");
                } catch (const my_error &e) {
                    sim::harness h;
                    s = e.what();
                    got = true;
                }
            } else {
                s = r.api0 ? obake::stack_trace() : obake::stack_trace(r.skip);
                got = true;
            }
        } catch (const std::bad_alloc &) {
            oom = true;
        } catch (const std::exception &e) {
            sim::violation("wrong-exception", std::string("something else than out-of-memory was thrown: ") + e.what());
        }
        if (r.alloc_nth) sim::disarm(sim::f_alloc);
        if (r.sym_fault) sim::disarm(sim::f_sym);
        if (oom) {
            sim::check(sim::fired(sim::f_alloc) != f0, "spurious-failure", "bad_alloc without a failed allocation");
            sim::probe("out_of_memory");
        }
        if (got) {
            sim::harness h;
            const bool sym_ok = sim::fired(sim::f_sym) == s0;
            std::string body = s;
            if (r.thrower) {
                // trace, blank line, exception type and message
                const auto p = s.find("\n\nException type   : ");
                sim::check(p != std::string::npos, "bad-message", "the message of an exception lacks its parts: " + s.substr(0, 300));
                sim::check(s.substr(p).find("my_error") != std::string::npos && s.substr(p).find("\nException message: the reason\n") != std::string::npos, "bad-message", "the message of an exception lacks its parts: " + s.substr(p));
                body = s.substr(0, p);
                sim::probe("decorated_exceptions");
            }
            if (body == notice) {
                sim::check(r.exp != exp_table, "disabled-text", "the notice was returned although traces are enabled");
                sim::probe("notices");
            } else {
                sim::check(r.exp != exp_notice, "ignores-switch", "a trace was produced although traces are disabled");
                // NOTE: through the thrower it is the same table, starting at the throwing function.
                // Boost.Stacktrace gives an empty trace when it cannot allocate its buffer.
                // The implementation on libbacktrace explains itself instead.
                if (body.empty() && sim::fired(sim::f_alloc) != f0) {
                    sim::probe("empty_for_lack_of_memory");
#if PART == 1
                } else if (explained(body) && (sim::fired(sim::f_alloc) != f0 || !sym_ok)) {
                    sim::probe("explained_failure");
                } else if (names.empty() && body == "The stack trace could not be generated due to an overflow condition.") {
                    sim::probe("explained_overflow");
#endif
                } else {
                    check_table(body, names, pcs, sym_ok);
                }
            }
        }
    }
    if (sim::fired(sim::f_alloc) != f0 || sim::fired(sim::f_sym) != s0) {
        // A retry gives the whole answer.
        request q = r;
        q.alloc_nth = 0;
        const auto s1 = sim::fired(sim::f_sym);
        const std::string s = obake::stack_trace(0);
        sim::harness h;
        // NOTE: another thread's request may still have its faults armed.
        if (sim::fired(sim::f_sym) != s1) return;
        if (r.exp == exp_notice) sim::check(s == notice, "ignores-switch", "a trace was produced although traces are disabled");
        if (r.exp == exp_table) {
            std::vector<row> rows;
            sim::check(parse(s, rows) && !rows.empty(), "not-a-table", "after a failure the trace is not a table: " + s.substr(0, 200));
        }
    }
}
__attribute__((noinline)) void ping(unsigned d, const request &r);
__attribute__((noinline)) void pong(unsigned d, const request &r)
{
    if (d) {
        ping(d - 1, r);
    } else {
        leaf(r);
    }
    asm volatile("" ::: "memory");
}
__attribute__((noinline)) void ping(unsigned d, const request &r)
{
    if (d) {
        pong(d - 1, r);
    } else {
        leaf(r);
    }
    asm volatile("" ::: "memory");
}
unsigned pick_depth()
{
    switch (sim::draw(4)) {
        case 0: return static_cast<unsigned>(sim::draw(4));
        case 1: return static_cast<unsigned>(sim::draw(16));
        case 2: return 90u + static_cast<unsigned>(sim::draw(20));
        default: return sim::chance(1, 4) ? 120u + static_cast<unsigned>(sim::draw(sim::chance(1, 8) ? 600 : 120)) : 5u;
    }
}
request pick_request()
{
    request r{};
    r.thrower = sim::chance(1, 6);
    r.api0 = sim::chance(1, 4);
    switch (sim::draw(4)) {
        case 0: r.skip = 0; break;
        case 1: r.skip = static_cast<unsigned>(sim::draw(8)); break;
        case 2: r.skip = static_cast<unsigned>(sim::draw(300)); break;
        default: r.skip = sim::chance(1, 3) ? 0xffffffffu - static_cast<unsigned>(sim::draw(4)) : 1u; break;
    }
    r.sym_fault = sim::chance(1, 8);
    return r;
}
} // namespace

#if PART == 0
SIM_WORKLOAD(strace0, "stack traces from several threads while the switch is toggled, with failing allocations and symbol look-ups")
#else
SIM_WORKLOAD(strace1, "the same with the implementation on libbacktrace")
#endif
{
    sim::check(obake::stack_trace_enabled(), "switch", "stack traces are not enabled by default");
    // mode 0: traces on; 1: off; 2: one thread toggles; 3: a single thread toggles and asks
    const unsigned mode = static_cast<unsigned>(sim::draw(4));
    const unsigned nthr = mode == 3 ? 0 : static_cast<unsigned>(sim::draw(4));
    if (mode == 1) obake::set_stack_trace_enabled(false);
    auto asker = [mode](unsigned n, bool faults) {
        bool on = true;
        for (unsigned i = 0; i < n; ++i) {
            request r = pick_request();
            if (mode == 3 && sim::chance(1, 2)) {
                on = !on;
                obake::set_stack_trace_enabled(on);
                sim::check(obake::stack_trace_enabled() == on, "switch", "the switch does not report what was set");
            }
            r.exp = mode == 0 ? exp_table : (mode == 1 ? exp_notice : (mode == 2 ? exp_either : (on ? exp_table : exp_notice)));
            if (faults && sim::chance(1, 2)) r.alloc_nth = 1u + static_cast<unsigned>(sim::draw(40));
            const unsigned d = pick_depth();
            sim::chance(1, 2) ? ping(d, r) : pong(d, r);
        }
    };
    for (unsigned i = 0; i < nthr; ++i) {
        // NOTE: faults only when there is one thread, so that an allocation failure is this request's own.
        const unsigned n = 1u + static_cast<unsigned>(sim::draw(2));
        sim::go("asker", [=]() { asker(n, false); });
    }
    if (mode == 2) {
        const unsigned n = 1u + static_cast<unsigned>(sim::draw(12));
        sim::go("toggler", [n]() {
            for (unsigned i = 0; i < n; ++i) {
                obake::set_stack_trace_enabled((i & 1u) != 0);
                sim::yield();
            }
        });
    }
    asker(1u + static_cast<unsigned>(sim::draw(3)), nthr == 0 && mode != 2);
    sim::join_all();
    // The toggler is gone: from here on the switch is obeyed.
    obake::set_stack_trace_enabled(false);
    sim::check(obake::stack_trace() == notice, "ignores-switch", "a trace was produced although traces are disabled");
    obake::set_stack_trace_enabled(true);
    {
        request r{};
        r.exp = exp_table;
        ping(2, r);
    }
    if (nthr || sim::fired(sim::f_alloc) || sim::fired(sim::f_sym) || mode >= 2) sim::nontrivial();
    sim::note_state(mode * 100 + nthr * 10 + (sim::fired(sim::f_alloc) ? 1 : 0) + (sim::fired(sim::f_sym) ? 2 : 0));
}
