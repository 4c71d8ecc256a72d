// The simulator's own tests: each workload contains a known mistake (or none).
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <barrier>
#include <charconv>
#include <chrono>
#include <condition_variable>
#include <ctime>
#include <future>
#include <iomanip>
#include <latch>
#include <locale>
#include <map>
#include <memory>
#include <memory_resource>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <random>
#include <semaphore>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <unordered_map>
#include <variant>
#include <vector>

#include <sim.hpp>

SIM_WORKLOAD(st_race, "an unprotected counter")
{
    static int n;
    for (int i = 0; i < 2; ++i) sim::go("t", []() { n = n + 1; });
    sim::join_all();
}
SIM_WORKLOAD(st_deadlock, "two locks in opposite order")
{
    static std::mutex a, b;
    sim::go("t1", []() {
        std::lock_guard l(a);
        sim::yield();
        std::lock_guard m(b);
    });
    sim::go("t2", []() {
        std::lock_guard l(b);
        sim::yield();
        std::lock_guard m(a);
    });
    sim::join_all();
}
SIM_WORKLOAD(st_leak, "a block is never freed")
{
    volatile int *p = new int(3);
    *p = 4;
}
SIM_WORKLOAD(st_uaf, "a block is read after it was freed")
{
    int *p = new int(3);
    int *volatile q = p;
    delete p;
    sim::check(*q != 12345, "never", "never");
}
SIM_WORKLOAD(st_spin, "a thread waits for something that never comes")
{
    static std::atomic<bool> f{false};
    sim::go("t", []() { f.store(sim::draw(2) == 7); });
    while (!f.load()) {
    }
}
SIM_WORKLOAD(st_ok, "correct use of everything")
{
    static std::mutex m;
    static int n;
    std::vector<int> v;
    for (int i = 0; i < 3; ++i)
        sim::go("t", [&v, i]() {
            std::lock_guard l(m);
            v.push_back(i);
            ++n;
        });
    sim::join_all();
    sim::check(v.size() == 3 && n == 3, "wrong", "lost update");
}
SIM_WORKLOAD(st_static, "statics whose initialisation may fail, and which own memory")
{
    static int n;
    struct owner {
        int *p = new int(3);
        owner()
        {
            n = n + 1;
            if (sim::chance(1, 2)) {
                delete p;
                throw n;
            }
        }
        ~owner()
        {
            delete p;
        }
    };
    const auto b0 = sim::live_object_blocks();
    for (int i = 0; i < 3; ++i) {
        sim::go("t", []() {
            for (int k = 0; k < 3; ++k) {
                try {
                    static const owner o;
                    sim::check(*o.p == 3, "wrong", "half-made static");
                    break;
                } catch (int) {
                }
            }
        });
    }
    sim::join_all();
    static std::once_flag once;
    static std::unique_ptr<int> held;
    for (int i = 0; i < 3; ++i) {
        sim::go("t", []() {
            for (int k = 0; k < 3; ++k) {
                try {
                    std::call_once(once, []() {
                        n = n + 1;
                        if (sim::chance(1, 2)) throw n;
                        held = std::make_unique<int>(n);
                    });
                    sim::check(*held == n, "wrong", "half-made object");
                    break;
                } catch (int) {
                }
            }
        });
    }
    sim::join_all();
    thread_local std::vector<int> scratch;
    scratch.resize(10);
    sim::check(sim::live_object_blocks() == b0, "leak", "a static counts as a leak");
    volatile int *volatile q = new int(4);
    sim::check(sim::live_object_blocks() == b0 + 1, "leak", "a block is not counted");
    delete q;
}
SIM_WORKLOAD(st_std, "what a change of the library may use from the standard library")
{
    std::atomic<int> n{0};
    {
        std::shared_mutex sm;
        std::timed_mutex tm;
        std::recursive_mutex rm;
        std::condition_variable_any cv;
        std::latch la(2);
        std::barrier ba(2);
        std::counting_semaphore<4> se(1);
        int plain = 0, plain2 = 0, plain3 = 0;
        bool ready = false;
        for (int i = 0; i < 2; ++i)
            sim::go("t", [&]() {
                {
                    std::unique_lock l(sm);
                    ++plain;
                }
                {
                    std::shared_lock l(sm);
                    n += plain > 0;
                }
                {
                    std::scoped_lock l(tm, rm);
                    ++plain2;
                    ready = true;
                }
                cv.notify_all();
                la.arrive_and_wait();
                ba.arrive_and_wait();
                se.acquire();
                ++plain3;
                se.release();
                std::this_thread::yield();
                std::this_thread::sleep_for(std::chrono::milliseconds(1));
            });
        {
            std::unique_lock l(tm);
            cv.wait(l, [&]() { return ready; });
        }
        sim::join_all();
        sim::check(plain == 2 && plain2 == 2 && plain3 == 2 && n == 2, "wrong", "wrong count");
    }
    {
        std::promise<int> p;
        auto f = p.get_future();
        std::jthread t([&]() { p.set_value(4); });
        sim::check(f.get() == 4, "wrong", "wrong future");
    }
    {
        auto f = std::async(std::launch::async, []() { return std::string(40, 'x'); });
        auto g = std::async(std::launch::deferred, []() { return 3; });
        sim::check(f.get().size() == 40u && g.get() == 3, "wrong", "wrong future");
    }
    {
        std::atomic<std::shared_ptr<int>> sp(std::make_shared<int>(3));
        sim::go("t", [&]() { sp.store(std::make_shared<int>(4)); });
        const auto v = *sp.load();
        sim::join_all();
        sim::check(v == 3 || v == 4, "wrong", "wrong value");
    }
    {
        std::pmr::monotonic_buffer_resource mr;
        std::pmr::vector<std::pmr::string> v(&mr);
        v.emplace_back("a rather long string, longer than the buffer");
        std::pmr::synchronized_pool_resource pr;
        std::pmr::vector<int> w(100, 3, &pr);
        sim::check(v.size() == 1u && w.back() == 3, "wrong", "wrong memory resource");
    }
    {
        char b[32];
        const auto r = std::to_chars(b, b + 32, 12345);
        std::ostringstream oss;
        oss.imbue(std::locale::classic());
        oss << std::setw(8) << std::string_view(b, static_cast<std::size_t>(r.ptr - b)) << std::put_time(std::gmtime(std::array<std::time_t, 1>{}.data()), "%Y");
        sim::check(oss.str() == "   123451970", "wrong", "wrong text: " + oss.str());
        std::vector<int> v{3, 1, 2};
        std::ranges::sort(v);
        std::mt19937_64 r64(3);
        std::shuffle(v.begin(), v.end(), r64);
        const auto t0 = std::chrono::steady_clock::now();
        sim::check(std::chrono::steady_clock::now() >= t0 && std::accumulate(v.begin(), v.end(), 0) == 6, "wrong", "clock");
        const std::any a = std::string("a rather long string, longer than the buffer");
        const std::variant<int, std::string> va = std::any_cast<std::string>(a);
        std::optional<std::vector<int>> o(v);
        std::map<int, std::string> m{{1, std::get<1>(va)}};
        std::unordered_map<std::string, int> um{{m[1], 3}};
        int ai = 0;
        std::atomic_ref<int>(ai).fetch_add(2);
        sim::check(o->size() == 3u && um.size() == 1u && ai == 2, "wrong", "containers");
    }
}
SIM_WORKLOAD(st_wait, "condition variables and atomics one can wait for")
{
    static std::mutex m;
    static std::condition_variable c;
    static std::atomic_flag f = ATOMIC_FLAG_INIT;
    static int n, k;
    for (int i = 0; i < 3; ++i)
        sim::go("t", [i]() {
            while (f.test_and_set(std::memory_order_acquire)) f.wait(true);
            ++k;
            f.clear(std::memory_order_release);
            f.notify_one();
            std::unique_lock l(m);
            c.wait(l, [i]() { return n == i; });
            ++n;
            c.notify_all();
        });
    sim::join_all();
    sim::check(n == 3 && k == 3, "wrong", "lost update");
}
SIM_WORKLOAD(st_lost, "a wake-up that may come too early")
{
    static std::mutex m;
    static std::condition_variable c;
    static std::atomic<bool> b{false};
    sim::go("t", []() {
        if (!b) {
            std::unique_lock l(m);
            c.wait(l);
        }
    });
    b = true;
    c.notify_all();
    sim::join_all();
}
SIM_WORKLOAD(st_fault, "a failing allocation")
{
    sim::arm_nth(sim::f_alloc, 2);
    int *volatile a = new int(1);
    int *volatile b = nullptr;
    bool t = false;
    try {
        b = new int(2);
    } catch (const std::bad_alloc &) {
        t = true;
    }
    delete a;
    delete b;
    sim::check(t && sim::fired(sim::f_alloc) == 1, "no-fault", "the second allocation did not fail");
}
#include <tbb/combinable.h>
#include <tbb/concurrent_vector.h>
#include <tbb/parallel_for_each.h>
#include <tbb/spin_mutex.h>
#include <tbb/tbb.h>

SIM_WORKLOAD(st_tbb, "the simulated task library")
{
    sim::set_workers(3);
    std::atomic<int> n{0};
    int plain = 0;
    tbb::spin_mutex m;
    tbb::combinable<int> c;
    tbb::concurrent_vector<int> cv;
    tbb::parallel_for(0, 20, [&](int i) {
        n += i;
        c.local() += i;
        tbb::spin_mutex::scoped_lock l(m);
        plain += i;
    });
    tbb::parallel_for(0, 20, 5, [&](int i) { cv.push_back(i); });
    std::vector<int> v{1, 2, 3, 4, 5};
    tbb::parallel_for_each(v.begin(), v.end(), [](int &x) { x *= 2; });
    struct body {
        const std::vector<int> &v;
        int s = 0;
        body(const std::vector<int> &v_) : v(v_) {}
        body(body &o, tbb::split) : v(o.v) {}
        void operator()(const tbb::blocked_range<std::size_t> &r)
        {
            for (auto i = r.begin(); i != r.end(); ++i) s += v[i];
        }
        void join(const body &o)
        {
            s += o.s;
        }
    } b(v);
    tbb::parallel_reduce(tbb::blocked_range<std::size_t>(0, v.size()), b);
    sim::check(n == 190 && plain == 190 && cv.size() == 4 && b.s == 30, "wrong", "wrong results");
    sim::check(c.combine([](int x, int y) { return x + y; }) == 190, "wrong", "wrong combination");
}
