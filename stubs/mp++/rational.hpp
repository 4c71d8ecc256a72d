// Minimal stand-in for mppp::rational<SSize>.
#ifndef VERIF_STUB_MPPP_RATIONAL_HPP
#define VERIF_STUB_MPPP_RATIONAL_HPP
#include <mp++/integer.hpp>

namespace mppp
{

template <std::size_t SSize>
class rational
{
    using int_t = integer<SSize>;
    int_t m_num, m_den{1};
    void canon()
    {
        if (m_den.is_zero()) throw zero_division_error("zero denominator");
        if (m_den.sgn() < 0) {
            m_num.neg();
            m_den.neg();
        }
        auto g = gcd(m_num, m_den);
        if (!g.is_one()) {
            m_num /= g;
            m_den /= g;
        }
    }

public:
    rational() = default;
    rational(const rational &) = default;
    rational(rational &&o) noexcept : m_num(std::move(o.m_num)), m_den(std::move(o.m_den))
    {
        o.m_num = 0;
        o.m_den = 1;
    }
    rational &operator=(const rational &o)
    {
        if (this != &o) {
            rational t(o);
            swap(t);
        }
        return *this;
    }
    rational &operator=(rational &&o) noexcept
    {
        if (this != &o) {
            m_num = std::move(o.m_num);
            m_den = std::move(o.m_den);
            o.m_num = 0;
            o.m_den = 1;
        }
        return *this;
    }
    void swap(rational &o) noexcept
    {
        m_num.swap(o.m_num);
        m_den.swap(o.m_den);
    }
    template <stub_int T>
    explicit rational(const T &n) : m_num(n)
    {
    }
    explicit rational(const int_t &n) : m_num(n) {}
    template <typename T, typename U>
        requires((stub_int<T> || std::is_same_v<T, int_t>)&&(stub_int<U> || std::is_same_v<U, int_t>))
    explicit rational(const T &n, const U &d) : m_num(n), m_den(d)
    {
        canon();
    }
    rational &operator=(const int_t &n)
    {
        return *this = rational(n);
    }
    template <stub_int T>
    rational &operator=(const T &n)
    {
        return *this = rational(n);
    }
    const int_t &get_num() const
    {
        return m_num;
    }
    const int_t &get_den() const
    {
        return m_den;
    }
    int_t &_get_num()
    {
        return m_num;
    }
    int_t &_get_den()
    {
        return m_den;
    }
    bool is_zero() const
    {
        return m_num.is_zero();
    }
    bool is_one() const
    {
        return m_num.is_one() && m_den.is_one();
    }
    int sgn() const
    {
        return m_num.sgn();
    }
    rational &neg()
    {
        m_num.neg();
        return *this;
    }
    rational &operator+=(const rational &o)
    {
        *this = rational(m_num * o.m_den + o.m_num * m_den, m_den * o.m_den);
        return *this;
    }
    rational &operator-=(const rational &o)
    {
        *this = rational(m_num * o.m_den - o.m_num * m_den, m_den * o.m_den);
        return *this;
    }
    rational &operator*=(const rational &o)
    {
        *this = rational(m_num * o.m_num, m_den * o.m_den);
        return *this;
    }
    rational &operator/=(const rational &o)
    {
        *this = rational(m_num * o.m_den, m_den * o.m_num);
        return *this;
    }
    rational operator-() const
    {
        rational r(*this);
        r.neg();
        return r;
    }
    rational operator+() const
    {
        return *this;
    }
    std::string to_string() const
    {
        return m_den.is_one() ? m_num.to_string() : m_num.to_string() + "/" + m_den.to_string();
    }
#define STUB_OP(op)                                                                                                    \
    template <typename T>                                                                                              \
        requires(stub_int<T> || std::is_same_v<T, int_t>)                                                              \
    rational &operator op##=(const T &v)                                                                               \
    {                                                                                                                  \
        return *this op## = rational(v);                                                                               \
    }                                                                                                                  \
    friend rational operator op(const rational &a, const rational &b)                                                  \
    {                                                                                                                  \
        rational r(a);                                                                                                 \
        r op## = b;                                                                                                    \
        return r;                                                                                                      \
    }                                                                                                                  \
    template <typename T>                                                                                              \
        requires(stub_int<T> || std::is_same_v<T, int_t>)                                                              \
    friend rational operator op(const rational &a, const T &b)                                                         \
    {                                                                                                                  \
        rational r(a);                                                                                                 \
        r op## = rational(b);                                                                                          \
        return r;                                                                                                      \
    }                                                                                                                  \
    template <typename T>                                                                                              \
        requires(stub_int<T> || std::is_same_v<T, int_t>)                                                              \
    friend rational operator op(const T &a, const rational &b)                                                         \
    {                                                                                                                  \
        rational r(a);                                                                                                 \
        r op## = b;                                                                                                    \
        return r;                                                                                                      \
    }
    STUB_OP(+)
    STUB_OP(-)
    STUB_OP(*)
    STUB_OP(/)
#undef STUB_OP
    static int cmp(const rational &a, const rational &b)
    {
        return int_t::cmp(a.m_num * b.m_den, b.m_num * a.m_den);
    }
#define STUB_CMP(op)                                                                                                   \
    friend bool operator op(const rational &a, const rational &b)                                                      \
    {                                                                                                                  \
        return cmp(a, b) op 0;                                                                                         \
    }                                                                                                                  \
    template <typename T>                                                                                              \
        requires(stub_int<T> || std::is_same_v<T, int_t>)                                                              \
    friend bool operator op(const rational &a, const T &b)                                                             \
    {                                                                                                                  \
        return cmp(a, rational(b)) op 0;                                                                               \
    }                                                                                                                  \
    template <typename T>                                                                                              \
        requires(stub_int<T> || std::is_same_v<T, int_t>)                                                              \
    friend bool operator op(const T &a, const rational &b)                                                             \
    {                                                                                                                  \
        return cmp(rational(a), b) op 0;                                                                               \
    }
    STUB_CMP(==)
    STUB_CMP(!=)
    STUB_CMP(<)
    STUB_CMP(>)
    STUB_CMP(<=)
    STUB_CMP(>=)
#undef STUB_CMP
    friend std::ostream &operator<<(std::ostream &os, const rational &q)
    {
        return os << q.to_string();
    }

private:
    friend class boost::serialization::access;
    template <typename Ar>
    void save(Ar &ar, unsigned) const
    {
        ar << m_num;
        ar << m_den;
    }
    template <typename Ar>
    void load(Ar &ar, unsigned)
    {
        int_t a, b;
        ar >> a;
        ar >> b;
        *this = rational(a, b);
    }
    BOOST_SERIALIZATION_SPLIT_MEMBER()
};

template <std::size_t S>
inline void swap(rational<S> &a, rational<S> &b) noexcept
{
    a.swap(b);
}
template <std::size_t S>
inline std::size_t hash(const rational<S> &q)
{
    return q.get_num().hash_value() + q.get_den().hash_value();
}
template <std::size_t S, typename T>
    requires(stub_int<T> || std::is_same_v<T, integer<S>>)
inline rational<S> pow(const rational<S> &b, const T &e_)
{
    const auto e = static_cast<long long>(e_);
    const auto ue = static_cast<unsigned long long>(e < 0 ? -e : e);
    auto nn = stub_detail::pow_ui(b.get_num(), ue), dd = stub_detail::pow_ui(b.get_den(), ue);
    return e < 0 ? rational<S>(dd, nn) : rational<S>(nn, dd);
}

} // namespace mppp

template <std::size_t S>
struct fmt::formatter<mppp::rational<S>> : fmt::formatter<std::string> {
    template <typename C>
    auto format(const mppp::rational<S> &n, C &ctx) const
    {
        return fmt::formatter<std::string>::format(n.to_string(), ctx);
    }
};
#endif
