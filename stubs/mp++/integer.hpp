// Minimal stand-in for mppp::integer<SSize>: a sign-magnitude big integer with
// SSize*64 bits of inline storage and operator-new'd limbs beyond that, so that
// the simulator's allocation faults reach coefficient arithmetic.
#ifndef VERIF_STUB_MPPP_INTEGER_HPP
#define VERIF_STUB_MPPP_INTEGER_HPP
#include <algorithm>
#include <cassert>
#include <cmath>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>

#include <gmp.h>

#include <fmt/format.h>

#include <boost/serialization/access.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/string.hpp>

#include <mp++/config.hpp>

namespace mppp
{

template <typename T>
inline constexpr bool stub_is_int_v = std::is_integral_v<T> || std::is_same_v<T, __int128> || std::is_same_v<T, unsigned __int128>;
template <typename T>
concept stub_int = stub_is_int_v<std::remove_cv_t<T>>;

struct zero_division_error final : std::domain_error {
    using std::domain_error::domain_error;
};

template <std::size_t SSize>
class integer
{
    static constexpr std::uint32_t icap = static_cast<std::uint32_t>(SSize * 2u);
    std::uint32_t m_cap = icap;
    std::int32_t m_sz = 0; // sign * number of used 32-bit limbs
    union {
        std::uint32_t m_in[icap];
        std::uint32_t *m_dy;
    };

    std::uint32_t *d()
    {
        return m_cap == icap ? m_in : m_dy;
    }
    const std::uint32_t *d() const
    {
        return m_cap == icap ? m_in : m_dy;
    }
    std::uint32_t n() const
    {
        return static_cast<std::uint32_t>(m_sz < 0 ? -m_sz : m_sz);
    }
    void release()
    {
        if (m_cap != icap) {
            delete[] m_dy;
            m_cap = icap;
        }
        m_sz = 0;
    }
    // Set from a magnitude buffer + sign (strong guarantee).
    void assign_mag(const std::uint32_t *p, std::uint32_t len, bool neg)
    {
        while (len && !p[len - 1u]) --len;
        if (len > m_cap) {
            auto *np = new std::uint32_t[len];
            std::copy(p, p + len, np);
            release();
            m_dy = np;
            m_cap = len;
        } else {
            std::copy(p, p + len, d());
        }
        m_sz = neg ? -static_cast<std::int32_t>(len) : static_cast<std::int32_t>(len);
    }
    template <typename T>
    void assign_int(T v)
    {
        using U = unsigned __int128;
        bool neg = false;
        U u;
        if constexpr (std::is_same_v<T, bool>) {
            u = v;
        } else {
            neg = v < T(0);
            u = neg ? (U(0) - static_cast<U>(v)) : static_cast<U>(v);
        }
        std::uint32_t b[4];
        for (int i = 0; i < 4; ++i) {
            b[i] = static_cast<std::uint32_t>(u);
            u >>= 32;
        }
        assign_mag(b, 4, neg);
    }
    // Scratch buffer: inline for small sizes.
    struct scratch {
        std::uint32_t in[16];
        std::uint32_t *p;
        explicit scratch(std::size_t len) : p(len <= 16u ? in : new std::uint32_t[len])
        {
            std::fill(p, p + len, 0u);
        }
        ~scratch()
        {
            if (p != in) delete[] p;
        }
        scratch(const scratch &) = delete;
        scratch &operator=(const scratch &) = delete;
    };
    static int cmp_mag(const integer &a, const integer &b)
    {
        if (a.n() != b.n()) return a.n() < b.n() ? -1 : 1;
        for (auto i = a.n(); i-- > 0u;) {
            if (a.d()[i] != b.d()[i]) return a.d()[i] < b.d()[i] ? -1 : 1;
        }
        return 0;
    }
    static void add_impl(integer &ret, const integer &a, const integer &b, bool negb)
    {
        const bool sa = a.m_sz < 0, sb = (b.m_sz < 0) != negb;
        const auto na = a.n(), nb = b.n();
        const auto len = std::max(na, nb) + 1u;
        scratch s(len);
        if (sa == sb || !na || !nb) {
            std::uint64_t c = 0;
            for (std::uint32_t i = 0; i < len; ++i) {
                c += (i < na ? a.d()[i] : 0u);
                c += (i < nb ? b.d()[i] : 0u);
                s.p[i] = static_cast<std::uint32_t>(c);
                c >>= 32;
            }
            ret.assign_mag(s.p, len, na ? sa : sb);
        } else {
            const int cm = cmp_mag(a, b);
            const integer &x = cm >= 0 ? a : b, &y = cm >= 0 ? b : a;
            std::int64_t c = 0;
            for (std::uint32_t i = 0; i < x.n(); ++i) {
                c += static_cast<std::int64_t>(x.d()[i]) - static_cast<std::int64_t>(i < y.n() ? y.d()[i] : 0u);
                s.p[i] = static_cast<std::uint32_t>(c);
                c = (c < 0) ? -1 : 0;
            }
            ret.assign_mag(s.p, x.n(), cm >= 0 ? sa : sb);
        }
    }
    static void mul_impl(integer &ret, const integer &a, const integer &b)
    {
        const auto na = a.n(), nb = b.n();
        scratch s(static_cast<std::size_t>(na) + nb + 1u);
        for (std::uint32_t i = 0; i < na; ++i) {
            std::uint64_t c = 0;
            for (std::uint32_t j = 0; j < nb; ++j) {
                c += static_cast<std::uint64_t>(a.d()[i]) * b.d()[j] + s.p[i + j];
                s.p[i + j] = static_cast<std::uint32_t>(c);
                c >>= 32;
            }
            s.p[i + nb] = static_cast<std::uint32_t>(c);
        }
        ret.assign_mag(s.p, na + nb, (a.m_sz < 0) != (b.m_sz < 0));
    }

public:
    static constexpr std::size_t ssize = SSize;
    integer() {}
    integer(const integer &o)
    {
        assign_mag(o.d(), o.n(), o.m_sz < 0);
    }
    integer(integer &&o) noexcept
    {
        *this = std::move(o);
    }
    template <stub_int T>
    explicit integer(const T &v)
    {
        assign_int(v);
    }
    template <std::floating_point T>
    explicit integer(const T &v)
    {
        if (!std::isfinite(v)) throw std::domain_error("non-finite");
        assign_int(static_cast<__int128>(v));
    }
    explicit integer(const std::string &s)
    {
        std::size_t i = 0;
        bool neg = false;
        if (i < s.size() && s[i] == '-') {
            neg = true;
            ++i;
        }
        if (i == s.size()) throw std::invalid_argument("bad integer string");
        try {
            for (; i < s.size(); ++i) {
                if (s[i] < '0' || s[i] > '9') throw std::invalid_argument("bad integer string");
                *this *= 10;
                *this += static_cast<int>(s[i] - '0');
            }
        } catch (...) {
            release();
            throw;
        }
        if (neg) m_sz = -m_sz;
    }
    explicit integer(const char *s) : integer(std::string(s)) {}
    ~integer()
    {
        release();
    }
    integer &operator=(const integer &o)
    {
        if (this != &o) assign_mag(o.d(), o.n(), o.m_sz < 0);
        return *this;
    }
    integer &operator=(integer &&o) noexcept
    {
        if (this != &o) {
            release();
            if (o.m_cap != icap) {
                m_dy = o.m_dy;
                m_cap = o.m_cap;
                m_sz = o.m_sz;
                o.m_cap = icap;
                o.m_sz = 0;
            } else {
                // NOTE: an inline value is copied out and the source is left as it was.
                std::copy(o.m_in, o.m_in + o.n(), m_in);
                m_sz = o.m_sz;
            }
        }
        return *this;
    }
    template <stub_int T>
    integer &operator=(const T &v)
    {
        assign_int(v);
        return *this;
    }
    void swap(integer &o) noexcept
    {
        integer t(std::move(*this));
        *this = std::move(o);
        o = std::move(t);
    }

    bool is_static() const
    {
        return m_cap == icap;
    }
    std::size_t size() const
    {
        return (n() + 1u) / 2u;
    }
    std::size_t nbits() const
    {
        return m_sz ? static_cast<std::size_t>(n() - 1u) * 32u + (32u - static_cast<unsigned>(__builtin_clz(d()[n() - 1u]))) : 0u;
    }
    int sgn() const
    {
        return m_sz < 0 ? -1 : (m_sz > 0 ? 1 : 0);
    }
    bool is_zero() const
    {
        return m_sz == 0;
    }
    bool is_one() const
    {
        return m_sz == 1 && d()[0] == 1u;
    }
    bool is_negative_one() const
    {
        return m_sz == -1 && d()[0] == 1u;
    }
    bool even_p() const
    {
        return !odd_p();
    }
    bool odd_p() const
    {
        return m_sz && (d()[0] & 1u);
    }
    integer &neg()
    {
        m_sz = -m_sz;
        return *this;
    }
    integer &abs()
    {
        if (m_sz < 0) m_sz = -m_sz;
        return *this;
    }

    template <stub_int T>
    bool get(T &out) const
    {
        using U = unsigned __int128;
        if constexpr (std::is_same_v<T, bool>) {
            out = (m_sz != 0);
            return true;
        } else {
            if (n() > 4u) return false;
            U u = 0;
            for (auto i = n(); i-- > 0u;) u = (u << 32) | d()[i];
            constexpr bool sgnd = T(-1) < T(0);
            constexpr int bits = static_cast<int>(sizeof(T) * 8);
            const U umax = sgnd ? ((U(1) << (bits - 1)) - 1u) : (bits == 128 ? ~U(0) : ((U(1) << (bits % 128)) - 1u));
            if (m_sz >= 0) {
                if (u > umax) return false;
                out = static_cast<T>(u);
            } else {
                if (!sgnd || u > umax + 1u) return false;
                out = static_cast<T>(U(0) - u);
            }
            return true;
        }
    }
    template <stub_int T>
    explicit operator T() const
    {
        T r;
        if (!get(r)) throw std::overflow_error("integer conversion overflow");
        return r;
    }
    template <std::floating_point T>
    explicit operator T() const
    {
        T r = 0;
        for (auto i = n(); i-- > 0u;) r = r * T(4294967296.0) + T(d()[i]);
        return m_sz < 0 ? -r : r;
    }
    std::string to_string() const
    {
        if (!m_sz) return "0";
        integer t(*this);
        std::string s;
        auto len = t.n();
        auto *p = t.d();
        while (len) {
            std::uint64_t r = 0;
            for (auto i = len; i-- > 0u;) {
                r = (r << 32) | p[i];
                p[i] = static_cast<std::uint32_t>(r / 10u);
                r %= 10u;
            }
            s += static_cast<char>('0' + r);
            while (len && !p[len - 1u]) --len;
        }
        if (m_sz < 0) s += '-';
        std::reverse(s.begin(), s.end());
        return s;
    }
    explicit operator bool() const
    {
        return m_sz != 0;
    }

    static int cmp(const integer &a, const integer &b)
    {
        if ((a.m_sz < 0) != (b.m_sz < 0)) return a.m_sz < 0 ? -1 : 1;
        const int c = cmp_mag(a, b);
        return a.m_sz < 0 ? -c : c;
    }

    integer &operator+=(const integer &o)
    {
        add_impl(*this, *this, o, false);
        return *this;
    }
    integer &operator-=(const integer &o)
    {
        add_impl(*this, *this, o, true);
        return *this;
    }
    integer &operator*=(const integer &o)
    {
        mul_impl(*this, *this, o);
        return *this;
    }
    // Truncated division.
    static void divrem(integer &q, integer &r, const integer &a, const integer &b)
    {
        if (!b.m_sz) throw zero_division_error("integer division by zero");
        const auto na = a.n();
        const bool sq = (a.m_sz < 0) != (b.m_sz < 0), sr = a.m_sz < 0;
        scratch qs(na + 1u);
        integer rem, bb(b);
        bb.abs();
        for (auto i = na * 32u; i-- > 0u;) {
            rem <<= 1u;
            if ((a.d()[i / 32u] >> (i % 32u)) & 1u) rem += integer(1);
            if (cmp_mag(rem, bb) >= 0) {
                rem -= bb;
                qs.p[i / 32u] |= (std::uint32_t(1) << (i % 32u));
            }
        }
        integer qq;
        qq.assign_mag(qs.p, na, sq);
        if (sr) rem.neg();
        q = std::move(qq);
        r = std::move(rem);
    }
    integer &operator/=(const integer &o)
    {
        integer r;
        divrem(*this, r, *this, o);
        return *this;
    }
    integer &operator%=(const integer &o)
    {
        integer q;
        divrem(q, *this, *this, o);
        return *this;
    }
    integer &operator<<=(unsigned k)
    {
        const auto w = k / 32u, b = k % 32u, na = n();
        scratch s(static_cast<std::size_t>(na) + w + 1u);
        for (std::uint32_t i = 0; i < na; ++i) {
            const auto v = static_cast<std::uint64_t>(d()[i]) << b;
            s.p[i + w] |= static_cast<std::uint32_t>(v);
            s.p[i + w + 1u] |= static_cast<std::uint32_t>(v >> 32);
        }
        assign_mag(s.p, na + w + 1u, m_sz < 0);
        return *this;
    }
    integer &operator>>=(unsigned k)
    {
        // Only used on non-negative values.
        const auto w = k / 32u, b = k % 32u, na = n();
        scratch s(static_cast<std::size_t>(na) + 1u);
        for (auto i = w; i < na; ++i) {
            std::uint64_t v = d()[i];
            if (i + 1u < na) v |= static_cast<std::uint64_t>(d()[i + 1u]) << 32;
            s.p[i - w] = static_cast<std::uint32_t>(v >> b);
        }
        assign_mag(s.p, na, m_sz < 0);
        return *this;
    }
    integer &operator++()
    {
        return *this += integer(1);
    }
    integer &operator--()
    {
        return *this -= integer(1);
    }
    integer operator++(int)
    {
        integer r(*this);
        *this += integer(1);
        return r;
    }
    integer operator--(int)
    {
        integer r(*this);
        *this -= integer(1);
        return r;
    }
    integer operator-() const
    {
        integer r(*this);
        r.neg();
        return r;
    }
    integer operator+() const
    {
        return *this;
    }
#define STUB_OP(op)                                                                                                    \
    template <stub_int T>                                                                                              \
    integer &operator op##=(const T & v)                                                                               \
    {                                                                                                                  \
        return *this op## = integer(v);                                                                                \
    }                                                                                                                  \
    friend integer operator op(const integer &a, const integer &b)                                                     \
    {                                                                                                                  \
        integer r(a);                                                                                                  \
        r op## = b;                                                                                                    \
        return r;                                                                                                      \
    }                                                                                                                  \
    template <stub_int T>                                                                                              \
    friend integer operator op(const integer &a, const T &b)                                                           \
    {                                                                                                                  \
        integer r(a);                                                                                                  \
        r op## = integer(b);                                                                                           \
        return r;                                                                                                      \
    }                                                                                                                  \
    template <stub_int T>                                                                                              \
    friend integer operator op(const T &a, const integer &b)                                                           \
    {                                                                                                                  \
        integer r(a);                                                                                                  \
        r op## = b;                                                                                                    \
        return r;                                                                                                      \
    }
    STUB_OP(+)
    STUB_OP(-)
    STUB_OP(*)
    STUB_OP(/)
    STUB_OP(%)
#undef STUB_OP
    template <std::floating_point T>
    friend T operator*(const integer &a, const T &b)
    {
        return static_cast<T>(a) * b;
    }
    template <std::floating_point T>
    friend T operator*(const T &a, const integer &b)
    {
        return a * static_cast<T>(b);
    }
    friend integer operator>>(const integer &a, unsigned k)
    {
        integer r(a);
        r >>= k;
        return r;
    }
    friend integer operator<<(const integer &a, unsigned k)
    {
        integer r(a);
        r <<= k;
        return r;
    }
#define STUB_CMP(op)                                                                                                   \
    friend bool operator op(const integer &a, const integer &b)                                                        \
    {                                                                                                                  \
        return cmp(a, b) op 0;                                                                                         \
    }                                                                                                                  \
    template <stub_int T>                                                                                              \
    friend bool operator op(const integer &a, const T &b)                                                              \
    {                                                                                                                  \
        return cmp(a, integer(b)) op 0;                                                                                \
    }                                                                                                                  \
    template <stub_int T>                                                                                              \
    friend bool operator op(const T &a, const integer &b)                                                              \
    {                                                                                                                  \
        return cmp(integer(a), b) op 0;                                                                                \
    }
    STUB_CMP(==)
    STUB_CMP(!=)
    STUB_CMP(<)
    STUB_CMP(>)
    STUB_CMP(<=)
    STUB_CMP(>=)
#undef STUB_CMP
    friend std::ostream &operator<<(std::ostream &os, const integer &x)
    {
        return os << x.to_string();
    }
    std::size_t hash_value() const
    {
        std::size_t h = static_cast<std::size_t>(m_sz);
        for (std::uint32_t i = 0; i < n(); ++i) h = h * 1099511628211ull + d()[i];
        return h;
    }

private:
    friend class boost::serialization::access;
    template <typename Ar>
    void save(Ar &ar, unsigned) const
    {
        ar << to_string();
    }
    template <typename Ar>
    void load(Ar &ar, unsigned)
    {
        std::string s;
        ar >> s;
        *this = integer(s);
    }
    BOOST_SERIALIZATION_SPLIT_MEMBER()
};

template <std::size_t S>
inline void swap(integer<S> &a, integer<S> &b) noexcept
{
    a.swap(b);
}
template <typename T, std::size_t S>
inline bool get(T &out, const integer<S> &n)
{
    return n.get(out);
}
template <std::size_t S>
inline integer<S> &add(integer<S> &r, const integer<S> &a, const integer<S> &b)
{
    return r = a + b;
}
template <std::size_t S>
inline integer<S> &sub(integer<S> &r, const integer<S> &a, const integer<S> &b)
{
    return r = a - b;
}
template <std::size_t S>
inline integer<S> &mul(integer<S> &r, const integer<S> &a, const integer<S> &b)
{
    return r = a * b;
}
template <std::size_t S>
inline bool is_negative_one(const integer<S> &a)
{
    return a.is_negative_one();
}
template <std::size_t S>
inline void addmul(integer<S> &r, const integer<S> &a, const integer<S> &b)
{
    r += a * b;
}
template <std::size_t S>
inline void submul(integer<S> &r, const integer<S> &a, const integer<S> &b)
{
    r -= a * b;
}
template <std::size_t S>
inline integer<S> sqr(const integer<S> &a)
{
    return a * a;
}
template <std::size_t S>
inline integer<S> abs(integer<S> a)
{
    a.abs();
    return a;
}
template <std::size_t S>
inline integer<S> neg(integer<S> a)
{
    a.neg();
    return a;
}
template <std::size_t S>
inline int sgn(const integer<S> &a)
{
    return a.sgn();
}
template <std::size_t S>
inline bool is_zero(const integer<S> &a)
{
    return a.is_zero();
}
template <std::size_t S>
inline bool is_one(const integer<S> &a)
{
    return a.is_one();
}
template <std::size_t S>
inline std::size_t hash(const integer<S> &n)
{
    return n.hash_value();
}
namespace stub_detail
{
template <std::size_t S>
inline integer<S> pow_ui(integer<S> b, unsigned long long e)
{
    integer<S> r(1);
    while (e) {
        if (e & 1u) r *= b;
        e >>= 1;
        if (e) b *= b;
    }
    return r;
}
} // namespace stub_detail
template <std::size_t S, stub_int T>
inline integer<S> pow(const integer<S> &b, const T &e)
{
    if constexpr (T(-1) < T(0)) {
        if (e < T(0)) {
            if (b.is_zero()) throw zero_division_error("0 ** negative");
            if (b.is_one()) return b;
            if (b.is_negative_one()) return (e % 2) ? b : -b;
            return integer<S>{};
        }
    }
    return stub_detail::pow_ui(b, static_cast<unsigned long long>(e));
}
template <std::size_t S>
inline integer<S> pow(const integer<S> &b, const integer<S> &e)
{
    return mppp::pow(b, static_cast<long long>(e));
}
template <std::size_t S, stub_int T>
inline integer<S> pow(const T &b, const integer<S> &e)
{
    return mppp::pow(integer<S>(b), static_cast<long long>(e));
}
template <std::size_t S>
inline integer<S> gcd(integer<S> a, integer<S> b)
{
    a.abs();
    b.abs();
    while (!b.is_zero()) {
        a %= b;
        swap(a, b);
    }
    return a;
}

// More of the interface, for changes of the library.
template <std::size_t S>
inline int cmp(const integer<S> &a, const integer<S> &b)
{
    return a < b ? -1 : (a == b ? 0 : 1);
}
template <std::size_t S>
inline bool even_p(const integer<S> &a)
{
    return a.even_p();
}
template <std::size_t S>
inline bool odd_p(const integer<S> &a)
{
    return a.odd_p();
}
template <std::size_t S>
inline integer<S> &mul_2exp(integer<S> &r, const integer<S> &a, unsigned k)
{
    return r = a << k;
}
template <std::size_t S>
inline integer<S> &tdiv_q_2exp(integer<S> &r, const integer<S> &a, unsigned k)
{
    return r = a >> k;
}
template <std::size_t S>
inline integer<S> &tdiv_q(integer<S> &r, const integer<S> &a, const integer<S> &b)
{
    return r = a / b;
}
template <std::size_t S>
inline void set_zero(integer<S> &a)
{
    a = integer<S>{};
}
template <std::size_t S>
inline void set_one(integer<S> &a)
{
    a = integer<S>(1);
}

namespace literals
{
inline integer<1> operator""_z1(const char *s)
{
    return integer<1>(s);
}
} // namespace literals

} // namespace mppp

namespace std
{
template <size_t S>
struct hash<mppp::integer<S>> {
    size_t operator()(const mppp::integer<S> &n) const
    {
        return n.hash_value();
    }
};
} // namespace std

template <std::size_t S>
struct fmt::formatter<mppp::integer<S>> : fmt::formatter<std::string> {
    template <typename C>
    auto format(const mppp::integer<S> &n, C &ctx) const
    {
        return fmt::formatter<std::string>::format(n.to_string(), ctx);
    }
};
#endif
