// Simulated byte sinks and sources.
#ifndef VERIF_WORK_SINK_HPP
#define VERIF_WORK_SINK_HPP
#include <cstring>
#include <ios>
#include <istream>
#include <ostream>
#include <stdexcept>
#include <streambuf>
#include <string>

#include <sim.hpp>

struct sink_error : std::runtime_error {
    sink_error() : std::runtime_error("injected sink failure") {}
};

// A sink. It accepts up to `limit` bytes and then fails; it also fails when the
// simulator says so (f_stream_fail: nothing of this call is taken; f_stream_short:
// a part is). Once broken it stays broken.
struct sink : std::streambuf {
    static constexpr std::size_t none = static_cast<std::size_t>(-1);
    std::size_t limit = none;
    bool throws = false; // fail by throwing
    bool broken = false;
    bool short_ok = true;
    char *buf = nullptr;
    std::size_t len = 0, cap = 0;
    sink() = default;
    explicit sink(std::size_t l, bool t = false) : limit(l), throws(t) {}
    ~sink() override
    {
        sim::harness h;
        delete[] buf;
    }
    std::string got() const
    {
        return std::string(buf ? buf : "", len);
    }
    void clear()
    {
        len = 0;
        broken = false;
        limit = none;
    }

protected:
    void take(const char *s, std::size_t n)
    {
        sim::harness h;
        if (len + n > cap) {
            std::size_t nc = (len + n) * 2 + 64;
            char *b = new char[nc];
            if (len) std::memcpy(b, buf, len);
            delete[] buf;
            buf = b;
            cap = nc;
        }
        std::memcpy(buf + len, s, n);
        len += n;
    }
    std::streamsize fail(std::size_t taken)
    {
        broken = true;
        if (throws) throw sink_error();
        return static_cast<std::streamsize>(taken);
    }
    std::streamsize xsputn(const char *s, std::streamsize n_) override
    {
        const auto n = static_cast<std::size_t>(n_);
        if (broken || !n) return 0;
        if (sim::fault(sim::f_stream_fail)) return fail(0);
        if (const auto f = sim::fault(sim::f_stream_short, n ? n : 1)) {
            take(s, f - 1);
            return fail(f - 1);
        }
        if (limit != none && n > limit - len) {
            const std::size_t k = limit - len;
            take(s, k);
            sim::note_fault(sim::f_stream_short);
            return fail(k);
        }
        take(s, n);
        return n_;
    }
    int_type overflow(int_type c) override
    {
        if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        const char ch = traits_type::to_char_type(c);
        return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
    }
    int sync() override
    {
        return broken ? -1 : 0;
    }
};

// A source over a byte string: gives the bytes in pieces, may fail (f_stream_fail), may end early.
struct source : std::streambuf {
    const char *p, *e;
    std::size_t chunk;
    char *cur = nullptr;
    source(const char *b, std::size_t n, std::size_t chunk_ = 64) : p(b), e(b + n), chunk(chunk_ ? chunk_ : 1) {}
    ~source() override
    {
        sim::harness h;
        delete[] cur;
    }

protected:
    int_type underflow() override
    {
        if (gptr() && gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (p == e) return traits_type::eof();
        if (sim::fault(sim::f_stream_fail)) {
            throw sink_error();
        }
        if (sim::fault(sim::f_stream_trunc)) {
            e = p; // the rest is gone
            return traits_type::eof();
        }
        sim::harness h;
        if (!cur) cur = new char[chunk];
        const std::size_t n = std::min<std::size_t>(chunk, static_cast<std::size_t>(e - p));
        std::memcpy(cur, p, n);
        p += n;
        setg(cur, cur, cur + n);
        return traits_type::to_int_type(*cur);
    }
};
#endif
