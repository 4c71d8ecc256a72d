// Shadow of <tbb/blocked_range.h> for the simulator: same interface.
#ifndef VERIF_STUB_TBB_BLOCKED_RANGE_H
#define VERIF_STUB_TBB_BLOCKED_RANGE_H
#include <cassert>
#include <cstddef>
namespace tbb
{
class split
{
};
class proportional_split
{
};
template <typename V>
class blocked_range
{
    V m_end, m_begin;
    std::size_t m_grain;

public:
    using const_iterator = V;
    using size_type = std::size_t;
    blocked_range(V b, V e, size_type g = 1) : m_end(e), m_begin(b), m_grain(g)
    {
        assert(g > 0u);
    }
    blocked_range(blocked_range &r, split) : m_end(r.m_end), m_begin(r.m_begin + (r.m_end - r.m_begin) / 2u), m_grain(r.m_grain)
    {
        r.m_end = m_begin;
    }
    // Simulator only: an uneven split.
    blocked_range(blocked_range &r, std::size_t left) : m_end(r.m_end), m_begin(r.m_begin + static_cast<decltype(r.m_end - r.m_begin)>(left)), m_grain(r.m_grain)
    {
        r.m_end = m_begin;
    }
    const_iterator begin() const
    {
        return m_begin;
    }
    const_iterator end() const
    {
        return m_end;
    }
    size_type size() const
    {
        return static_cast<size_type>(m_end - m_begin);
    }
    size_type grainsize() const
    {
        return m_grain;
    }
    bool empty() const
    {
        return !(m_begin < m_end);
    }
    bool is_divisible() const
    {
        return m_grain < size();
    }
};
template <typename V>
blocked_range(V, V) -> blocked_range<V>;
template <typename V>
blocked_range(V, V, std::size_t) -> blocked_range<V>;
} // namespace tbb
#endif
