// Shared by the workloads: the harness coefficient, the reference model and the
// structural invariant checker.
#ifndef VERIF_WORK_COMMON_HPP
#define VERIF_WORK_COMMON_HPP
#include <algorithm>
#include <array>
#include <cstdint>
#include <map>
#include <memory>
#include <new>
#include <ostream>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <sim.hpp>

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

#include <obake/byte_size.hpp>
#include <obake/detail/hc.hpp>
#include <obake/hash.hpp>
#include <obake/kpack.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/polynomials/polynomial.hpp>
#include <obake/symbols.hpp>

// ---------------------------------------------------------------- the harness coefficient
struct cf_error : std::runtime_error {
    cf_error() : std::runtime_error("injected coefficient failure") {}
};
inline std::uint64_t cf_bs = 16; // what byte_size() of a harness coefficient returns
inline bool cf_print_soft = false;
inline void cf_site()
{
    if (sim::fault(sim::f_cf_throw)) {
        throw cf_error();
    }
}
// Integers modulo 2**64. Box: the value lives in its own heap block (a zero has none).
#ifdef NDEBUG
// NOTE: distinct types, so that the code generated for them is not merged with that of the parts built with assertions.
inline namespace release
{
#endif
template <bool Box>
class xcf
{
    struct plain {
        std::uint64_t v = 0;
    };
    struct boxed {
        std::uint64_t *p = nullptr;
    };
    std::conditional_t<Box, boxed, plain> d;
    void init(std::uint64_t x)
    {
        if constexpr (Box) {
            d.p = x ? new std::uint64_t(x) : nullptr;
        } else {
            d.v = x;
        }
    }
    void set(std::uint64_t x)
    {
        if constexpr (Box) {
            if (!d.p) {
                init(x);
            } else if (x) {
                *d.p = x;
            } else {
                delete d.p;
                d.p = nullptr;
            }
        } else {
            d.v = x;
        }
    }
    struct raw {
    };
    xcf(raw, std::uint64_t x)
    {
        init(x);
    }

public:
    xcf() {}
    xcf(int n)
    {
        cf_site();
        init(static_cast<std::uint64_t>(static_cast<std::int64_t>(n)));
    }
    static xcf make(std::int64_t n)
    {
        return xcf(raw{}, static_cast<std::uint64_t>(n));
    }
    static xcf makeu(std::uint64_t n)
    {
        return xcf(raw{}, n);
    }
    xcf(const xcf &o)
    {
        cf_site();
        init(o.val());
    }
    xcf(xcf &&o) noexcept : d(o.d)
    {
        if constexpr (Box) o.d.p = nullptr;
    }
    xcf &operator=(const xcf &o)
    {
        if (this != &o) {
            cf_site();
            set(o.val());
        }
        return *this;
    }
    xcf &operator=(xcf &&o) noexcept
    {
        if (this != &o) {
            if constexpr (Box) {
                delete d.p;
                d.p = o.d.p;
                o.d.p = nullptr;
            } else {
                d = o.d;
            }
        }
        return *this;
    }
    ~xcf()
    {
        if constexpr (Box) delete d.p;
    }
    std::uint64_t val() const
    {
        if constexpr (Box) {
            return d.p ? *d.p : 0u;
        } else {
            return d.v;
        }
    }
    xcf &operator+=(const xcf &o)
    {
        cf_site();
        set(val() + o.val());
        return *this;
    }
    xcf &operator-=(const xcf &o)
    {
        cf_site();
        set(val() - o.val());
        return *this;
    }
    xcf &operator*=(const xcf &o)
    {
        cf_site();
        set(val() * o.val());
        return *this;
    }
    friend xcf operator+(const xcf &a, const xcf &b)
    {
        cf_site();
        return xcf(raw{}, a.val() + b.val());
    }
    friend xcf operator-(const xcf &a, const xcf &b)
    {
        cf_site();
        return xcf(raw{}, a.val() - b.val());
    }
    friend xcf operator*(const xcf &a, const xcf &b)
    {
        cf_site();
        return xcf(raw{}, a.val() * b.val());
    }
    friend xcf operator+(const xcf &a)
    {
        return a;
    }
    friend xcf operator-(const xcf &a)
    {
        cf_site();
        return xcf(raw{}, 0u - a.val());
    }
    friend void negate(xcf &a)
    {
        cf_site();
        a.set(0u - a.val());
    }
    friend bool operator==(const xcf &a, const xcf &b)
    {
        return a.val() == b.val();
    }
    friend bool operator!=(const xcf &a, const xcf &b)
    {
        return a.val() != b.val();
    }
    friend bool is_zero(const xcf &a)
    {
        return a.val() == 0u;
    }
    friend std::ostream &operator<<(std::ostream &os, const xcf &a)
    {
        if (cf_print_soft) {
            // Fails as streams do, without an exception.
            if (sim::fault(sim::f_cf_throw)) {
                os.setstate(std::ios_base::failbit);
                return os;
            }
        } else {
            cf_site();
        }
        return os << static_cast<std::int64_t>(a.val());
    }
    friend std::size_t byte_size(const xcf &a)
    {
        return static_cast<std::size_t>(cf_bs + (a.val() & 7u));
    }
    // NOTE: negative exponents wrap, so that the result is always defined.
    template <class T>
        requires std::is_integral_v<T>
    friend xcf pow(const xcf &a, const T &n_)
    {
        std::uint64_t r = 1, b = a.val();
        for (auto n = static_cast<std::uint64_t>(n_); n; n >>= 1, b *= b)
            if (n & 1u) r *= b;
        cf_site();
        return xcf(raw{}, r);
    }
    friend xcf diff(const xcf &, const std::string &)
    {
        cf_site();
        return xcf(raw{}, 0);
    }
    template <class T>
        requires std::is_integral_v<T>
    friend xcf operator*(const xcf &a, const T &n)
    {
        cf_site();
        return xcf(raw{}, a.val() * static_cast<std::uint64_t>(n));
    }
    xcf(const xcf<!Box> &o)
        requires(!Box)
    {
        cf_site();
        init(o.val());
    }
    // The boxed one has a fused multiply-add, the plain one has not.
    void addmul(const xcf &a, const xcf &b)
    {
        cf_site();
        set(val() + a.val() * b.val());
    }
    template <class Ar>
    void serialize(Ar &ar, unsigned)
    {
        std::uint64_t x = val();
        ar &x;
        if constexpr (Ar::is_loading::value) set(x);
    }
};
inline xcf<true> operator/(const xcf<true> &a, const xcf<true> &b)
{
    cf_site();
    return xcf<true>::makeu(b.val() ? a.val() / b.val() : 0u);
}
inline xcf<true> &operator/=(xcf<true> &a, const xcf<true> &b)
{
    cf_site();
    a = xcf<true>::makeu(b.val() ? a.val() / b.val() : 0u);
    return a;
}
// A narrow coefficient, integers modulo 16: converting to it may give zero.
struct nib {
    unsigned v = 0;
    nib() = default;
    nib(int n) : v(static_cast<unsigned>(n) & 15u) {}
    nib(const xcf<false> &o) : v(static_cast<unsigned>(o.val()) & 15u)
    {
        cf_site();
    }
    nib &operator+=(const nib &o)
    {
        cf_site();
        v = (v + o.v) & 15u;
        return *this;
    }
    nib &operator-=(const nib &o)
    {
        cf_site();
        v = (v - o.v) & 15u;
        return *this;
    }
    nib &operator*=(const nib &o)
    {
        cf_site();
        v = (v * o.v) & 15u;
        return *this;
    }
    friend nib operator+(nib a, const nib &b)
    {
        return a += b;
    }
    friend nib operator-(nib a, const nib &b)
    {
        return a -= b;
    }
    friend nib operator*(nib a, const nib &b)
    {
        return a *= b;
    }
    friend nib operator+(nib a, const xcf<false> &b)
    {
        return a += nib(b);
    }
    friend nib operator-(nib a, const xcf<false> &b)
    {
        return a -= nib(b);
    }
    friend nib operator*(nib a, const xcf<false> &b)
    {
        return a *= nib(b);
    }
    friend nib operator+(const xcf<false> &b, nib a)
    {
        return nib(b) += a;
    }
    friend nib operator-(const xcf<false> &b, nib a)
    {
        return nib(b) -= a;
    }
    friend nib operator*(const xcf<false> &b, nib a)
    {
        return nib(b) *= a;
    }
    friend nib operator-(nib a)
    {
        a.v = (0u - a.v) & 15u;
        return a;
    }
    friend void negate(nib &a)
    {
        cf_site();
        a.v = (0u - a.v) & 15u;
    }
    friend bool operator==(const nib &a, const nib &b)
    {
        return a.v == b.v;
    }
    friend bool operator!=(const nib &a, const nib &b)
    {
        return a.v != b.v;
    }
    friend bool operator==(const nib &a, const xcf<false> &b)
    {
        return a.v == (b.val() & 15u);
    }
    friend bool is_zero(const nib &a)
    {
        return a.v == 0;
    }
    friend std::ostream &operator<<(std::ostream &os, const nib &a)
    {
        return os << a.v;
    }
    template <class A>
    void serialize(A &ar, unsigned)
    {
        ar &v;
    }
    friend nib pow(const nib &b, unsigned n)
    {
        nib r(1), p(b);
        for (; n; n >>= 1u, p *= nib(p))
            if (n & 1u) r *= p;
        return r;
    }
    friend std::size_t byte_size(const nib &)
    {
        return static_cast<std::size_t>(cf_bs);
    }
};
inline void fma3(xcf<true> &r, const xcf<true> &a, const xcf<true> &b)
{
    r.addmul(a, b);
}
// Products of different types of coefficients. Only one of the two orders can be accumulated in one step.
inline xcf<true> operator*(const xcf<false> &a, const xcf<true> &b)
{
    cf_site();
    return xcf<true>::makeu(a.val() * b.val());
}
inline xcf<true> operator*(const xcf<true> &a, const xcf<false> &b)
{
    return b * a;
}
inline void fma3(xcf<true> &r, const xcf<false> &a, const xcf<true> &b)
{
    r.addmul(xcf<true>::makeu(a.val()), b);
}
using scf = xcf<false>;
using bcf = xcf<true>;
#ifdef NDEBUG
}
#endif

// ---------------------------------------------------------------- reading keys
template <class K>
struct keyio;
template <class T>
struct keyio<obake::packed_monomial<T>> {
    using K = obake::packed_monomial<T>;
    static constexpr unsigned group(unsigned n)
    {
        return n;
    }
    static std::vector<long> exps(const K &k, unsigned n)
    {
        std::vector<long> r;
        if (!n) return r;
        obake::kunpacker<T> u(k.get_value(), n);
        for (unsigned i = 0; i < n; ++i) {
            T v;
            u >> v;
            r.push_back(static_cast<long>(v));
        }
        return r;
    }
    using T_ = T;
};
template <class T, unsigned P>
struct keyio<obake::d_packed_monomial<T, P>> {
    using K = obake::d_packed_monomial<T, P>;
    static constexpr unsigned group(unsigned)
    {
        return P;
    }
    static std::vector<long> exps(const K &k, unsigned n)
    {
        std::vector<long> r;
        for (const auto &c : k._container()) {
            obake::kunpacker<T> u(c, P);
            for (unsigned i = 0; i < P; ++i) {
                T v;
                u >> v;
                if (r.size() < n) {
                    r.push_back(static_cast<long>(v));
                } else if (v != 0) {
                    sim::violation("malformed", "a monomial has an exponent for a symbol that does not exist");
                }
            }
        }
        if (r.size() != n) sim::violation("malformed", "a monomial has the wrong number of exponents");
        return r;
    }
    using T_ = T;
};
// ---------------------------------------------------------------- a key whose operations may fail
struct key_error : std::runtime_error {
    key_error() : std::runtime_error("injected key failure") {}
};
inline void key_site()
{
    if (sim::fault(sim::f_key_throw)) {
        throw key_error();
    }
}
struct tkey : obake::packed_monomial<std::int64_t> {
    using base = obake::packed_monomial<std::int64_t>;
    using base::base;
    tkey() = default;
    explicit tkey(const base &b) : base(b) {}
    tkey(const tkey &o) : base(o)
    {
        key_site();
    }
    tkey(tkey &&) noexcept = default;
    tkey &operator=(const tkey &o)
    {
        key_site();
        base::operator=(o);
        return *this;
    }
    tkey &operator=(tkey &&) noexcept = default;
};
inline tkey key_merge_symbols(const tkey &k, const obake::symbol_idx_map<obake::symbol_set> &m, const obake::symbol_set &s)
{
    key_site();
    return tkey(obake::key_merge_symbols(static_cast<const tkey::base &>(k), m, s));
}
inline void monomial_mul(tkey &o, const tkey &a, const tkey &b, const obake::symbol_set &s)
{
    key_site();
    obake::monomial_mul(static_cast<tkey::base &>(o), static_cast<const tkey::base &>(a),
                        static_cast<const tkey::base &>(b), s);
}
inline std::int64_t key_degree(const tkey &k, const obake::symbol_set &s)
{
    key_site();
    return obake::key_degree(static_cast<const tkey::base &>(k), s);
}
inline std::int64_t key_p_degree(const tkey &k, const obake::symbol_idx_set &i, const obake::symbol_set &s)
{
    key_site();
    return obake::key_p_degree(static_cast<const tkey::base &>(k), i, s);
}
inline tkey key_trim(const tkey &k, const obake::symbol_idx_set &i, const obake::symbol_set &s)
{
    key_site();
    return tkey(obake::key_trim(static_cast<const tkey::base &>(k), i, s));
}
inline std::pair<std::int64_t, tkey> monomial_diff(const tkey &k, const obake::symbol_idx &i, const obake::symbol_set &s)
{
    key_site();
    auto p = obake::monomial_diff(static_cast<const tkey::base &>(k), i, s);
    return {p.first, tkey(p.second)};
}
template <class U>
    requires std::is_integral_v<U>
inline tkey monomial_pow(const tkey &k, const U &n, const obake::symbol_set &s)
{
    key_site();
    return tkey(obake::monomial_pow(static_cast<const tkey::base &>(k), n, s));
}
template <class U>
    requires requires(const tkey::base &b, const obake::symbol_idx_map<U> &m, const obake::symbol_set &s) {
        obake::monomial_subs(b, m, s);
    }
inline auto monomial_subs(const tkey &k, const obake::symbol_idx_map<U> &m, const obake::symbol_set &s)
{
    key_site();
    auto p = obake::monomial_subs(static_cast<const tkey::base &>(k), m, s);
    return std::make_pair(std::move(p.first), tkey(p.second));
}
template <>
inline constexpr bool obake::monomial_hash_is_homomorphic<tkey> = true;
template <>
struct keyio<tkey> : keyio<tkey::base> {
    using K = tkey;
};
template <class K>
inline K make_key(const std::vector<long> &e)
{
    return K(e.begin(), e.end());
}

// ---------------------------------------------------------------- the reference model
template <class C>
struct model {
    std::vector<std::string> ss;
    std::map<std::vector<long>, C> t;
    void add(const std::vector<long> &k, const C &c)
    {
        auto [it, n] = t.try_emplace(k, c);
        if (!n) it->second += c;
        if (it->second == C(0)) t.erase(it);
    }
    long sym(const std::string &s) const
    {
        auto it = std::find(ss.begin(), ss.end(), s);
        return it == ss.end() ? -1 : it - ss.begin();
    }
    long degree(const std::vector<long> &k) const
    {
        long d = 0;
        for (auto x : k) d += x;
        return d;
    }
    long pdegree(const std::vector<long> &k, const std::set<std::string> &s) const
    {
        long d = 0;
        for (std::size_t i = 0; i < k.size(); ++i)
            if (s.count(ss[i])) d += k[i];
        return d;
    }
    model extended(const std::vector<std::string> &nss) const
    {
        model r;
        r.ss = nss;
        for (auto &p : t) {
            std::vector<long> k(nss.size(), 0);
            for (std::size_t i = 0; i < ss.size(); ++i)
                k[static_cast<std::size_t>(std::find(nss.begin(), nss.end(), ss[i]) - nss.begin())] = p.first[i];
            r.t.emplace(std::move(k), p.second);
        }
        return r;
    }
    bool operator==(const model &o) const
    {
        if (ss != o.ss || t.size() != o.t.size()) return false;
        auto i = t.begin();
        auto j = o.t.begin();
        for (; i != t.end(); ++i, ++j)
            if (i->first != j->first || !(i->second == j->second)) return false;
        return true;
    }
};
inline std::vector<std::string> merged(const std::vector<std::string> &a, const std::vector<std::string> &b)
{
    std::set<std::string> s(a.begin(), a.end());
    s.insert(b.begin(), b.end());
    return {s.begin(), s.end()};
}
template <class C, class F>
model<C> mmul(const model<C> &a_, const model<C> &b_, F keep)
{
    auto ss = merged(a_.ss, b_.ss);
    auto a = a_.extended(ss), b = b_.extended(ss);
    model<C> r;
    r.ss = ss;
    std::vector<long> k(ss.size());
    for (auto &p : a.t)
        for (auto &q : b.t) {
            for (std::size_t i = 0; i < k.size(); ++i) k[i] = p.first[i] + q.first[i];
            if (keep(r, k)) r.add(k, C(p.second * q.second));
        }
    return r;
}
// The same with other coefficients.
template <class R, class C>
model<R> convert(const model<C> &m)
{
    if constexpr (std::is_same_v<R, C>) {
        return m;
    } else {
        model<R> r;
        r.ss = m.ss;
        for (auto &p : m.t) {
            if constexpr (std::is_constructible_v<R, const C &>) {
                r.add(p.first, R(p.second));
            } else {
                r.add(p.first, R::makeu(p.second.val()));
            }
        }
        return r;
    }
}
template <class C>
model<C> mmul(const model<C> &a, const model<C> &b)
{
    return mmul(a, b, [](const auto &, const auto &) { return true; });
}
template <class C>
model<C> madd(const model<C> &a_, const model<C> &b_, bool minus = false)
{
    auto ss = merged(a_.ss, b_.ss);
    auto a = a_.extended(ss), b = b_.extended(ss);
    for (auto &p : b.t) a.add(p.first, minus ? C(-p.second) : p.second);
    return a;
}
template <class C>
model<C> mpow(const model<C> &a, unsigned n)
{
    model<C> r;
    r.ss = {};
    r.t.emplace(std::vector<long>{}, C(1));
    if (n == 0) return r;
    r = a;
    for (unsigned i = 1; i < n; ++i) r = mmul(r, a);
    return r;
}
inline std::string str(const std::vector<long> &k)
{
    std::string s = "(";
    for (auto x : k) s += std::to_string(x) + ",";
    return s + ")";
}

// ---------------------------------------------------------------- structural invariants; reading a series
// To be called with the series at rest.
template <class P>
model<obake::series_cf_t<P>> read_series(const P &p, const char *what)
{
    using C = obake::series_cf_t<P>;
    using K = obake::series_key_t<P>;
    sim::harness h;
    auto bad = [&](const std::string &m) { sim::violation("malformed", std::string(what) + ": " + m); };
    model<C> r;
    for (const auto &s : p.get_symbol_set()) r.ss.push_back(s);
    for (std::size_t i = 1; i < r.ss.size(); ++i)
        if (!(r.ss[i - 1] < r.ss[i])) bad("the symbol set is not sorted");
    const auto n = static_cast<unsigned>(r.ss.size());
    const auto &tabs = p._get_s_table();
    if (tabs.empty()) bad("there is no table");
    if (tabs.size() != (std::size_t(1) << p.get_s_size())) bad("the number of tables is not 2**s_size");
    std::size_t cnt = 0;
    for (std::size_t i = 0; i < tabs.size(); ++i) {
        for (const auto &t : tabs[i]) {
            ++cnt;
            if (!obake::key_is_compatible(t.first, p.get_symbol_set())) bad("an incompatible key");
            if (obake::is_zero(t.second)) bad("a term with a zero coefficient");
            if ((obake::hash(t.first) & (tabs.size() - 1u)) != i) bad("a term is in the wrong segment");
            auto k = keyio<K>::exps(t.first, n);
            if (!r.t.emplace(k, t.second).second) bad("duplicate key " + str(k));
        }
    }
    if (p.size() != cnt) bad("size() is " + std::to_string(p.size()) + " but there are " + std::to_string(cnt) + " terms");
    if (p.empty() != (cnt == 0)) bad("empty() is wrong");
    std::size_t it_cnt = 0;
    for (const auto &t : p) {
        ++it_cnt;
        if (it_cnt > cnt) break;
        auto it = p.find(t.first);
        if (it == p.end() || &*it != &t) bad("an iterated term is not found by its key");
    }
    if (it_cnt != cnt) bad("iteration visits " + std::to_string(it_cnt) + " of " + std::to_string(cnt) + " terms");
    return r;
}
template <class C>
std::string diff(const model<C> &got, const model<C> &want)
{
    if (got.ss != want.ss) {
        std::string s = "symbols are {";
        for (auto &x : got.ss) s += x + " ";
        s += "} instead of {";
        for (auto &x : want.ss) s += x + " ";
        return s + "}";
    }
    for (auto &p : want.t) {
        auto it = got.t.find(p.first);
        if (it == got.t.end()) return "the term " + str(p.first) + " is missing (" + std::to_string(got.t.size()) + " terms instead of " + std::to_string(want.t.size()) + ")";
        if (!(it->second == p.second)) return "the coefficient of " + str(p.first) + " is wrong";
    }
    for (auto &p : got.t)
        if (!want.t.count(p.first)) return "there is an extra term " + str(p.first);
    return "";
}
// Compare a series at rest with a model.
template <class P>
void expect(const P &p, const model<obake::series_cf_t<P>> &want, const char *what, const char *cls = "wrong-result")
{
    auto got = read_series(p, what);
    sim::harness h;
    auto d = diff(got, want);
    if (!d.empty()) sim::violation(cls, std::string(what) + ": " + d);
}

// ---------------------------------------------------------------- generation
inline std::vector<std::string> gen_symbols(unsigned maxn)
{
    sim::harness h;
    static const char *names[] = {"a", "b", "c", "x", "y", "z"};
    std::vector<std::string> r;
    auto mask = sim::draw(64);
    for (unsigned i = 0; i < 6 && r.size() < maxn; ++i)
        if (mask & (1u << i)) r.push_back(names[i]);
    return r;
}
inline obake::symbol_set to_ss(const std::vector<std::string> &v)
{
    obake::symbol_set s;
    for (auto &x : v) s.insert(s.end(), x);
    return s;
}
struct gen_opts {
    unsigned max_sym = 3;
    unsigned max_terms = 20;
    long lo = 0, hi = 4;
    unsigned max_seg = 0;     // log2 of the number of segments
    long cmax = 3;
};
template <class C>
C gen_cf(long cmax)
{
    long v = static_cast<long>(sim::draw(static_cast<std::uint64_t>(2 * cmax))) - cmax;
    if (v >= 0) ++v;
    // NOTE: many zero divisors.
    if (std::is_same_v<C, nib> && v % 4 && sim::chance(1, 2)) v *= 4;
    if constexpr (requires { C::make(v); }) {
        return C::make(v);
    } else {
        return C(v);
    }
}
template <class C>
model<C> gen_model(const std::vector<std::string> &ss, const gen_opts &o)
{
    sim::harness h;
    model<C> m;
    m.ss = ss;
    const auto lo = sim::chance(7, 8) ? (o.max_terms + 1u) / 2u : 0u;
    const auto n = lo + sim::draw(o.max_terms - lo + 1u);
    for (std::uint64_t i = 0; i < n; ++i) {
        std::vector<long> k;
        for (std::size_t j = 0; j < ss.size(); ++j) k.push_back(sim::range(o.lo, o.hi));
        m.add(k, gen_cf<C>(o.cmax));
    }
    return m;
}
// Build the series a model describes, with the library, under the simulation (no faults should be armed).
template <class P>
P build(const model<obake::series_cf_t<P>> &m, unsigned log2seg = 0)
{
    P p;
    p.set_symbol_set(to_ss(m.ss));
    if (log2seg) p.set_n_segments(log2seg);
    for (auto &t : m.t) p.add_term(make_key<obake::series_key_t<P>>(t.first), t.second);
    return p;
}

// ---------------------------------------------------------------- run configuration
struct run_cfg {
    unsigned workers, hw;
};
inline run_cfg configure(unsigned max_workers = 4)
{
    run_cfg c;
    c.workers = static_cast<unsigned>(sim::draw(max_workers + 1u));
    // 1 (sequential only), or more
    c.hw = sim::chance(7, 8) ? 2u + static_cast<unsigned>(sim::draw(15)) : 1u;
    sim::set_hw_concurrency(c.hw);
    sim::set_split(static_cast<unsigned>(sim::draw(4)), sim::draw(1000));
    if (c.workers) sim::set_workers(c.workers);
    return c;
}
inline std::uint64_t pick_bs()
{
    static const std::uint64_t bs[] = {16, 3000, 30000, 60000, 200000, 800000};
    return bs[sim::draw(6)];
}
inline void mixstate(std::initializer_list<std::uint64_t> l)
{
    std::uint64_t h = 0x9E3779B97F4A7C15ull;
    for (auto x : l) {
        h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
    }
    sim::note_state(h);
}

using pm32 = obake::packed_monomial<std::int32_t>;
using pm64 = obake::packed_monomial<std::int64_t>;
using pmu64 = obake::packed_monomial<std::uint64_t>;
using dpm2 = obake::d_packed_monomial<std::int32_t, 2>;
using dpm1 = obake::d_packed_monomial<std::int64_t, 1>;
using dpm8 = obake::d_packed_monomial<std::int64_t, 8>;
using zint = mppp::integer<1>;
#endif
