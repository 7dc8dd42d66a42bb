// C24: whatever bytes an input file contains, reading it succeeds or throws. The sanitizers watch; a request for an absurd
// amount of memory is answered with std::bad_alloc.
#ifndef BADINPUT_HPP
#define BADINPUT_HPP
#include "vh.hpp"
#include <Eigen/Dense>
#include <Eigen/SparseCore>
#include "serialization_eigen.hpp"
#include <map>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/types/complex.hpp>
#include <cereal/types/memory.hpp>
#include <filesystem>
#include <new>
using namespace vh;

static size_t const MOST = 48ul << 20;
void *operator new(size_t n) {
    void *p = n > MOST ? nullptr : std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return n > MOST ? nullptr : std::malloc(n ? n : 1); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return n > MOST ? nullptr : std::malloc(n ? n : 1); }
void *operator new(size_t n, std::align_val_t a) {
    void *p = n > MOST ? nullptr : std::aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
void operator delete[](void *p, size_t) noexcept { std::free(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { std::free(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { std::free(p); }
void operator delete(void *p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { std::free(p); }

static std::map<std::string, std::array<long, 2>> tally; // accepted, refused
static volatile double sink;
static long positive = 0;
static void use(double x) { if (x > 0) ++positive; sink = x; } // a decision depends on every number that was read

// Runs the reader. Returns whether it accepted.
static bool reads(std::string const &what, std::string const &c, std::function<void()> const &f) {
    out().casebegin(what + " " + c);
    try {
        f();
        ++tally[what][0];
        out().eval(what + " " + c);
        return true;
    } catch (std::exception const &) {
        ++tally[what][1];
    } catch (...) {
        out().violation(what + ":exception", "what was thrown is not an error", c);
    }
    out().eval(what + " " + c);
    return false;
}
static std::string hex(std::string const &b, size_t most = 400) {
    static char const *d = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < b.size() && i < most; ++i) { s += d[(unsigned char)b[i] >> 4]; s += d[(unsigned char)b[i] & 15]; }
    return s;
}
static void writef(std::string const &f, std::string const &b) {
    std::ofstream o(f, std::ios::binary | std::ios::trunc);
    o << b;
}

// --- damage to bytes and to text ---
static std::string bytes(Rng &r, std::string b, std::string &c) {
    long times = r.b(.7) ? 1 : r.i(2, 4);
    for (long k = 0; k < times; ++k) {
        size_t p = b.empty() ? 0 : (size_t)r.i(0, (long)b.size() - 1);
        switch (r.i(0, 7)) {
        case 0: if (!b.empty()) { b[p] ^= (char)(1 << r.i(0, 7)); c += str(" bit@", p); } break;
        case 1: if (!b.empty()) { b[p] = (char)r.i(0, 255); c += str(" byte@", p); } break;
        case 2: b.resize(p); c += str(" cut@", p); break;
        case 3: b.insert(p, str((char)r.i(0, 255), (char)r.i(0, 255))); c += str(" insert@", p); break;
        case 4: if (!b.empty()) { size_t l = (size_t)r.i(1, 12); b.erase(p, l); c += str(" erase@", p, "+", l); } break;
        case 5: if (!b.empty()) { std::string s = b.substr(p, (size_t)r.i(1, 24)); b.insert((size_t)r.i(0, (long)b.size()), s); c += str(" copy@", p); } break;
        default: { // a number
            static std::vector<long> const v{0, 1, -1, 2, 7, 255, 65536, 2147483647, -2147483648l, 4294967295l, 1l << 40, 1l << 62, std::numeric_limits<long>::min(), std::numeric_limits<long>::max(), -2, 1l << 61, 1l << 60};
            long x = r.pick(v);
            size_t w = r.b() ? 4 : 8;
            if (r.b(.8)) p &= ~size_t(r.b() ? 3 : 7);
            for (size_t i = 0; i < w && p + i < b.size(); ++i) b[p + i] = (char)(x >> (8 * i));
            c += str(" number", w, "@", p, "=", x);
        }
        }
    }
    return b;
}
static bool tokenchar(char ch) { return std::isalnum((unsigned char)ch) || ch == '.' || ch == '-' || ch == '+' || ch == '_'; }
// replaces, removes, repeats tokens of a text
static std::string tokens(Rng &r, std::string b, std::string &c, std::vector<std::string> const &words) {
    long times = r.b(.6) ? 1 : r.i(2, 5);
    for (long k = 0; k < times && !b.empty(); ++k) {
        size_t p = (size_t)r.i(0, (long)b.size() - 1), e = p;
        while (p > 0 && tokenchar(b[p - 1])) --p;
        while (e < b.size() && tokenchar(b[e])) ++e;
        if (e == p) e = p + 1;
        std::string w = r.pick(words), old = b.substr(p, e - p);
        switch (r.i(0, 4)) {
        case 0: b.erase(p, e - p); c += " remove '" + old + "'"; break;
        case 1: b.insert(p, w); c += " insert '" + w + "'"; break;
        case 2: { // a line more or less
            size_t q = b.rfind('\n', p), z = b.find('\n', p);
            if (q == std::string::npos || z == std::string::npos) break;
            if (r.b()) { b.erase(q, z - q); c += " line removed"; } else { b.insert(q, b.substr(q, z - q)); c += " line repeated"; }
            break;
        }
        default: b.replace(p, e - p, w); c += " '" + old + "' -> '" + w + "'";
        }
    }
    return b;
}
static std::vector<std::string> const NUMBERS{"0", "1", "-1", "2", "3", "17", "-3", "2147483647", "2147483648", "-2147483648", "4294967296", "9223372036854775807", "18446744073709551615", "99999999999999999999999", "1e5", "1e308", "1e400", "-1e400", "0.5", "1.5",
                                              "nan", "NaN", "inf", "-Infinity", "null", "true", "false", "abc", "", " ", "\"1\"", "{}", "[]", "[1]", "1e-320", "0x10", "1,", ",", ":", "\"", "}", "]", "\\u0000", "\\ud800", "\xff", "é"};

// --- matrices ---
template <class A, class T>
static std::string packed(T const &t) {
    std::ostringstream os;
    { A ar(os); ar(cereal::make_nvp("m", const_cast<T &>(t))); }
    return os.str();
}
template <class T>
static std::string pack(T const &t, int fmt) {
    return fmt == 0 ? packed<cereal::BinaryOutputArchive>(t) : fmt == 1 ? packed<cereal::PortableBinaryOutputArchive>(t) : packed<cereal::JSONOutputArchive>(t);
}
template <class T>
static void unpack(T &t, int fmt, std::string const &d) {
    std::istringstream is(d);
    if (fmt == 0) { cereal::BinaryInputArchive ar(is); ar(cereal::make_nvp("m", t)); }
    if (fmt == 1) { cereal::PortableBinaryInputArchive ar(is); ar(cereal::make_nvp("m", t)); }
    if (fmt == 2) { cereal::JSONInputArchive ar(is); ar(cereal::make_nvp("m", t)); }
}
template <class S>
static std::string wellformed(Eigen::SparseMatrix<S> const &m) {
    if (m.rows() < 0 || m.cols() < 0) return "negative size";
    auto const *o = m.outerIndexPtr();
    if (o == nullptr) return m.cols() == 0 ? "" : "no column index";
    long cap = (long)m.data().size();
    for (long k = 0; k < m.cols(); ++k) {
        long b = o[k], e = m.innerNonZeroPtr() ? b + m.innerNonZeroPtr()[k] : o[k + 1];
        if (b < 0 || e < b || e > cap) return str("column ", k, " spans ", b, "..", e, " of ", cap);
        for (long i = b; i < e; ++i)
            if (m.innerIndexPtr()[i] < 0 || m.innerIndexPtr()[i] >= m.rows()) return str("row index ", m.innerIndexPtr()[i], " of ", m.rows());
    }
    return "";
}
static std::string damage(Rng &r, std::string const &good, int fmt, std::string &c) {
    if (r.b(.08)) { c += " intact"; return good; }
    if (r.b(.15)) { std::string b = good.substr(0, (size_t)r.i(0, (long)good.size())); c += str(" cut@", b.size(), "/", good.size()); return b; }
    return fmt == 2 && r.b(.85) ? tokens(r, good, c, NUMBERS) : bytes(r, good, c);
}
#endif
