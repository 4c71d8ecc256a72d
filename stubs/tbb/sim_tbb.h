// The simulated algorithms. Task order, splitting, stealing and worker count are
// decided by the simulator; cancellation and exception propagation follow TBB.
#ifndef VERIF_STUB_SIM_TBB_H
#define VERIF_STUB_SIM_TBB_H
#include <algorithm>
#include <cstdint>
#include <deque>
#include <functional>
#include <iterator>
#include <map>
#include <mutex>
#include <shared_mutex>
#include <type_traits>
#include <utility>
#include <vector>

#include <sim.hpp>
#include <tbb/blocked_range.h>

namespace tbb
{
class auto_partitioner
{
};
class simple_partitioner
{
};
class static_partitioner
{
};
class affinity_partitioner
{
};
// NOTE: a context says here only whether the work is bound to the group around it.
class task_group_context
{
    bool m_isolated, m_cancelled = false;

public:
    enum kind_type { isolated, bound };
    enum traits_type { fp_settings = 1, concurrent_wait = 4, default_traits = 0 };
    task_group_context(kind_type k = bound, std::uintptr_t = 0) : m_isolated(k == isolated) {}
    task_group_context(const task_group_context &) = delete;
    bool cancel_group_execution()
    {
        const bool r = !m_cancelled;
        m_cancelled = true;
        return r;
    }
    bool is_group_execution_cancelled() const
    {
        return m_cancelled;
    }
    void reset()
    {
        m_cancelled = false;
    }
    bool sim_isolated() const
    {
        return m_isolated;
    }
};
inline bool is_current_task_group_canceling()
{
    return sim::tasks::cancelled_here();
}
namespace sim_detail
{
inline bool detached()
{
    return false;
}
template <typename... P>
inline bool detached(const task_group_context &c, const P &...)
{
    return c.sim_isolated();
}
template <typename A, typename... P>
inline bool detached(const A &, const P &...p)
{
    return detached(p...);
}
// std::function objects are made in simulator memory; that the allocation of a task by TBB may fail is
// modelled by alloc_task().
template <typename F>
inline std::function<void()> mkfn(F f)
{
    sim::harness h;
    return std::function<void()>(std::move(f));
}
template <typename R>
inline bool want_split(const R &r, unsigned depth)
{
    return r.is_divisible() && sim::tasks::split(r.size(), depth);
}
template <typename R, typename B>
void run_for(sim::tasks::group &g, R r, const B &body, unsigned depth)
{
    while (want_split(r, depth)) {
        R right(r, split{});
        ++depth;
        sim::tasks::alloc_task();
        // Like TBB's start_for, every task has its own copy of the body.
        g.run(mkfn([&g, right, body, depth]() { run_for(g, right, body, depth); }));
    }
    body(r);
}
template <typename R, typename V, typename F, typename J>
V run_reduce(R r, V init, const V &identity, const F &f, const J &join, unsigned depth)
{
    if (!want_split(r, depth)) return f(r, std::move(init));
    R right(r, split{});
    ++depth;
    sim::tasks::alloc_task();
    if (sim::tasks::stolen()) {
        V rv(identity), lv(identity);
        {
            sim::tasks::group g;
            g.run(mkfn([&rv, right, &identity, &f, &join, depth]() {
                rv = run_reduce(right, V(identity), identity, f, join, depth);
            }));
            g.run_here([&]() { lv = run_reduce(r, std::move(init), identity, f, join, depth); });
            g.wait();
            if (g.cancelled()) return lv;
            return join(lv, rv);
        }
    }
    V v = run_reduce(r, std::move(init), identity, f, join, depth);
    return run_reduce(right, std::move(v), identity, f, join, depth);
}
template <typename R, typename B>
void run_body_reduce(const R &r, B &body, unsigned depth)
{
    if (!want_split(r, depth)) {
        auto rr = r;
        if (!sim::tasks::cancelled_here()) body(rr);
        return;
    }
    R left(r), right(left, split{});
    B other(body, split{});
    sim::tasks::alloc_task();
    sim::tasks::group g;
    g.run(mkfn([&right, &other, depth]() { run_body_reduce(right, other, depth + 1u); }));
    g.run_here([&]() { run_body_reduce(left, body, depth + 1u); });
    g.wait();
    if (!g.cancelled()) body.join(other);
}
template <typename It, typename C>
void run_sort(It b, It e, const C &c, unsigned depth)
{
    const auto n = e - b;
    if (n < 2) return;
    if (n < 8 || !sim::tasks::split(static_cast<std::uint64_t>(n), depth)) {
        // parallel_sort() is not stable: equivalent elements may end up in any order.
        if (sim::tasks::perm(2)) {
            for (auto i = n - 1; i > 0; --i) {
                using std::swap;
                swap(b[i], b[static_cast<decltype(i)>(sim::tasks::perm(static_cast<std::uint64_t>(i) + 1u))]);
            }
        }
        std::sort(b, e, c);
        return;
    }
    const auto m = b + n / 2;
    sim::tasks::alloc_task();
    sim::tasks::group g;
    g.run(mkfn([m, e, &c, depth]() { run_sort(m, e, c, depth + 1u); }));
    g.run_here([&]() { run_sort(b, m, c, depth + 1u); });
    g.wait();
    if (!g.cancelled()) std::inplace_merge(b, m, e, c);
}
} // namespace sim_detail

template <typename R, typename B, typename... P>
    requires requires(const R &r) { r.is_divisible(); }
void parallel_for(const R &r, const B &body, P &&...p)
{
    if (r.empty()) return;
    sim::tasks::algo("parallel_for");
    sim::tasks::alloc_task();
    sim::tasks::group g(sim_detail::detached(p...));
    g.run_here([&]() { sim_detail::run_for(g, r, body, 0); });
    g.wait();
}
template <typename I, typename F, typename... P>
    requires(std::is_integral_v<I> && std::is_invocable_v<const F &, I>)
void parallel_for(I b, I e, const F &f, P &&...p)
{
    parallel_for(
        blocked_range<I>(b, e),
        [&f](const blocked_range<I> &r) {
            for (auto i = r.begin(); i != r.end(); ++i) f(i);
        },
        p...);
}
template <typename R, typename V, typename F, typename J, typename... P>
V parallel_reduce(const R &r, const V &identity, const F &f, const J &join, P &&...p)
{
    if (r.empty()) return identity;
    sim::tasks::algo("parallel_reduce");
    sim::tasks::alloc_task();
    V ret(identity);
    sim::tasks::group g(sim_detail::detached(p...));
    g.run_here([&]() { ret = sim_detail::run_reduce(r, V(identity), identity, f, join, 0); });
    g.wait();
    return ret;
}
template <typename R, typename V, typename F, typename J, typename... P>
V parallel_deterministic_reduce(const R &r, const V &identity, const F &f, const J &join, P &&...p)
{
    return parallel_reduce(r, identity, f, join, p...);
}
template <typename... F>
void parallel_invoke(const F &...fs)
{
    sim::tasks::algo("parallel_invoke");
    sim::tasks::alloc_task();
    sim::tasks::group g((sim_detail::detached(fs) || ...));
    constexpr std::size_t nf = (0u + ... + !std::is_same_v<F, task_group_context>);
    // All but the last become tasks, the last runs here.
    std::size_t i = 0;
    auto one = [&](const auto &f) {
        if constexpr (std::is_same_v<std::remove_cvref_t<decltype(f)>, task_group_context>) {
            return;
        } else if (++i < nf) {
            g.run(sim_detail::mkfn([&f]() { f(); }));
        } else {
            g.run_here([&f]() { f(); });
        }
    };
    (one(fs), ...);
    g.wait();
}
template <typename It, typename C>
void parallel_sort(It b, It e, const C &c)
{
    sim::tasks::algo("parallel_sort");
    sim::tasks::alloc_task();
    sim_detail::run_sort(b, e, c, 0);
}
template <typename It>
void parallel_sort(It b, It e)
{
    parallel_sort(b, e, std::less<typename std::iterator_traits<It>::value_type>{});
}
namespace this_task_arena
{
template <typename F>
inline auto isolate(const F &f) -> decltype(f())
{
    struct scope {
        std::uint64_t old = 0;
        scope()
        {
            sim::tasks::isolate_begin(old);
        }
        ~scope()
        {
            sim::tasks::isolate_end(old);
        }
    } s;
    return f();
}
inline int max_concurrency()
{
    return 4;
}
} // namespace this_task_arena
class task_group
{
    sim::tasks::group g;

public:
    task_group() {}
    explicit task_group(task_group_context &c) : g(c.sim_isolated()) {}
    void cancel()
    {
        g.cancel();
    }
    template <typename F>
    void run(F f)
    {
        sim::tasks::alloc_task();
        g.run(sim_detail::mkfn([f]() { f(); }));
    }
    template <typename F>
    void run_and_wait(const F &f)
    {
        g.run_here([&f]() { f(); });
        g.wait();
    }
    void wait()
    {
        g.wait();
    }
};
class task_arena
{
public:
    template <typename... A>
    explicit task_arena(A &&...)
    {
    }
    template <typename F>
    auto execute(F &&f) -> decltype(f())
    {
        return f();
    }
};
class global_control
{
public:
    enum parameter { max_allowed_parallelism };
    global_control(parameter, std::size_t) {}
};
} // namespace tbb
namespace tbb
{
template <typename I, typename F>
    requires std::is_integral_v<I>
void parallel_for(I b, I e, I step, const F &f)
{
    const I n = b < e ? static_cast<I>((e - b - 1) / step + 1) : I(0);
    parallel_for(I(0), n, [&](I i) { f(static_cast<I>(b + i * step)); });
}
template <typename It, typename F, typename... P>
void parallel_for_each(It b, It e, const F &f, P &&...p)
{
    std::vector<It> its;
    for (; b != e; ++b) its.push_back(b);
    parallel_for(
        blocked_range<std::size_t>(0, its.size()),
        [&](const blocked_range<std::size_t> &r) {
            for (auto i = r.begin(); i != r.end(); ++i) f(*its[i]);
        },
        p...);
}
template <typename C, typename F>
    requires requires(C &c) { c.begin(); }
void parallel_for_each(C &&c, const F &f)
{
    parallel_for_each(c.begin(), c.end(), f);
}
// The body form of the reduction.
template <typename R, typename B>
    requires requires(B &b, R &r) { b.join(b); b(r); }
void parallel_reduce(const R &r, B &body)
{
    if (r.empty()) return;
    sim::tasks::algo("parallel_reduce");
    sim::tasks::alloc_task();
    sim::tasks::group g;
    g.run_here([&]() { sim_detail::run_body_reduce(r, body, 0); });
    g.wait();
}
template <typename V = int>
class sim_mutex
{
    std::mutex m;

public:
    static constexpr bool is_rw_mutex = false, is_recursive_mutex = false, is_fair_mutex = false;
    void lock()
    {
        m.lock();
    }
    bool try_lock()
    {
        return m.try_lock();
    }
    void unlock()
    {
        m.unlock();
    }
    class scoped_lock
    {
        sim_mutex *p = nullptr;

    public:
        scoped_lock() = default;
        explicit scoped_lock(sim_mutex &m_, bool = true) : p(&m_)
        {
            p->lock();
        }
        scoped_lock(const scoped_lock &) = delete;
        void acquire(sim_mutex &m_, bool = true)
        {
            m_.lock();
            p = &m_;
        }
        bool try_acquire(sim_mutex &m_, bool = true)
        {
            if (!m_.try_lock()) return false;
            p = &m_;
            return true;
        }
        void release()
        {
            if (p) p->unlock();
            p = nullptr;
        }
        ~scoped_lock()
        {
            release();
        }
    };
};
using spin_mutex = sim_mutex<>;
using mutex = sim_mutex<>;
using queuing_mutex = sim_mutex<>;
using speculative_spin_mutex = sim_mutex<>;
template <typename V = int>
class sim_rw_mutex
{
    std::shared_mutex m;

public:
    static constexpr bool is_rw_mutex = true, is_recursive_mutex = false, is_fair_mutex = false;
    void lock()
    {
        m.lock();
    }
    bool try_lock()
    {
        return m.try_lock();
    }
    void unlock()
    {
        m.unlock();
    }
    void lock_shared()
    {
        m.lock_shared();
    }
    bool try_lock_shared()
    {
        return m.try_lock_shared();
    }
    void unlock_shared()
    {
        m.unlock_shared();
    }
    class scoped_lock
    {
        sim_rw_mutex *p = nullptr;
        bool w = false;

    public:
        scoped_lock() = default;
        explicit scoped_lock(sim_rw_mutex &m_, bool write = true)
        {
            acquire(m_, write);
        }
        scoped_lock(const scoped_lock &) = delete;
        void acquire(sim_rw_mutex &m_, bool write = true)
        {
            write ? m_.lock() : m_.lock_shared();
            p = &m_;
            w = write;
        }
        bool try_acquire(sim_rw_mutex &m_, bool write = true)
        {
            if (!(write ? m_.try_lock() : m_.try_lock_shared())) return false;
            p = &m_;
            w = write;
            return true;
        }
        // NOTE: false means that the lock was released on the way.
        bool upgrade_to_writer()
        {
            if (w) return true;
            p->unlock_shared();
            p->lock();
            w = true;
            return false;
        }
        bool downgrade_to_reader()
        {
            if (!w) return true;
            p->unlock();
            p->lock_shared();
            w = false;
            return false;
        }
        bool is_writer() const
        {
            return w;
        }
        void release()
        {
            if (p) w ? p->unlock() : p->unlock_shared();
            p = nullptr;
        }
        ~scoped_lock()
        {
            release();
        }
    };
};
using spin_rw_mutex = sim_rw_mutex<>;
using rw_mutex = sim_rw_mutex<>;
using queuing_rw_mutex = sim_rw_mutex<>;
using speculative_spin_rw_mutex = sim_rw_mutex<>;
class null_mutex
{
public:
    void lock() {}
    bool try_lock()
    {
        return true;
    }
    void unlock() {}
    class scoped_lock
    {
    public:
        scoped_lock() = default;
        explicit scoped_lock(null_mutex &) {}
        void acquire(null_mutex &) {}
        bool try_acquire(null_mutex &)
        {
            return true;
        }
        void release() {}
    };
};
// One value per simulated thread.
template <typename T>
class enumerable_thread_specific
{
    mutable std::mutex m;
    std::function<T()> mk;
    std::map<int, T> v;

public:
    using reference = T &;
    enumerable_thread_specific() : mk([]() { return T(); }) {}
    template <typename F>
        requires(std::is_invocable_v<const F &>)
    explicit enumerable_thread_specific(F f) : mk(f)
    {
    }
    explicit enumerable_thread_specific(const T &x) : mk([x]() { return x; }) {}
    T &local()
    {
        std::lock_guard l(m);
        const int id = sim::self();
        auto it = v.find(id);
        if (it == v.end()) it = v.emplace(id, mk()).first;
        return it->second;
    }
    T &local(bool &exists)
    {
        {
            std::lock_guard l(m);
            exists = v.count(sim::self()) != 0u;
        }
        return local();
    }
    std::size_t size() const
    {
        return v.size();
    }
    bool empty() const
    {
        return v.empty();
    }
    void clear()
    {
        v.clear();
    }
    template <typename F>
    void combine_each(F f)
    {
        for (auto &p : v) f(p.second);
    }
    template <typename F>
    T combine(F f)
    {
        if (v.empty()) return mk();
        auto it = v.begin();
        T r = it->second;
        for (++it; it != v.end(); ++it) r = f(r, it->second);
        return r;
    }
    struct iterator {
        using iterator_category = std::forward_iterator_tag;
        using value_type = T;
        using difference_type = std::ptrdiff_t;
        using pointer = T *;
        using reference = T &;
        typename std::map<int, T>::iterator it;
        T &operator*() const
        {
            return it->second;
        }
        T *operator->() const
        {
            return &it->second;
        }
        iterator &operator++()
        {
            ++it;
            return *this;
        }
        iterator operator++(int)
        {
            auto r = *this;
            ++it;
            return r;
        }
        bool operator==(const iterator &o) const
        {
            return it == o.it;
        }
    };
    iterator begin()
    {
        return iterator{v.begin()};
    }
    iterator end()
    {
        return iterator{v.end()};
    }
};
template <typename T>
using combinable = enumerable_thread_specific<T>;
template <typename T>
class concurrent_vector
{
    mutable std::mutex m;
    std::deque<T> v;

public:
    using value_type = T;
    using iterator = typename std::deque<T>::iterator;
    using const_iterator = typename std::deque<T>::const_iterator;
    iterator push_back(const T &x)
    {
        std::lock_guard l(m);
        v.push_back(x);
        return std::prev(v.end());
    }
    template <typename... A>
    iterator emplace_back(A &&...a)
    {
        std::lock_guard l(m);
        v.emplace_back(std::forward<A>(a)...);
        return std::prev(v.end());
    }
    std::size_t size() const
    {
        std::lock_guard l(m);
        return v.size();
    }
    bool empty() const
    {
        return size() == 0u;
    }
    T &operator[](std::size_t i)
    {
        std::lock_guard l(m);
        return v[i];
    }
    const T &operator[](std::size_t i) const
    {
        std::lock_guard l(m);
        return v[i];
    }
    iterator begin()
    {
        return v.begin();
    }
    iterator end()
    {
        return v.end();
    }
    const_iterator begin() const
    {
        return v.begin();
    }
    const_iterator end() const
    {
        return v.end();
    }
};
} // namespace tbb
namespace oneapi
{
namespace tbb = ::tbb;
}
#endif
