// Common parts of the harnesses: seeded generator, monitor output, case accounting.
#ifndef VH_HPP
#define VH_HPP

#include <atomic>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <mutex>
#include <random>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

inline std::string env(char const *n, std::string const &d = "") {
    char const *p = std::getenv(n);
    return p ? std::string(p) : d;
}
inline unsigned long seed() { return std::strtoul(env("VERIF_SEED", "1").c_str(), nullptr, 10); }
inline bool thorough() { return env("VERIF_TIER", "quick") == "thorough"; }
inline long n(long quick, long thor) { return thorough() ? thor : quick; }
inline std::string scratch() { return env("VERIF_SCRATCH", "."); }

struct Rng {
    std::mt19937_64 g;
    explicit Rng(unsigned long stream = 0) : g(seed() * 0x9E3779B97F4A7C15ull + stream * 0xD1B54A32D192ED03ull + 12345) {}
    long i(long a, long b) { return a + static_cast<long>(g() % static_cast<unsigned long>(b - a + 1)); }
    double u() { return static_cast<double>(g() >> 11) * 0x1.0p-53; }
    double u(double a, double b) { return a + (b - a) * u(); }
    double normal() {
        double x = std::max(u(), 1e-300);
        return std::sqrt(-2 * std::log(x)) * std::cos(2 * M_PI * u());
    }
    bool b(double p = .5) { return u() < p; }
    template <class C>
    auto const &pick(C const &c) { return c[static_cast<size_t>(i(0, static_cast<long>(c.size()) - 1))]; }
};

inline std::string esc(std::string const &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 32 || c > 126) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r;
}

class Out {
    std::ofstream f;
    std::mutex m;
    std::unordered_set<size_t> seen;
    std::unordered_set<std::string> keys;
    long evals = 0, nviol = 0, nsamples = 0;

public:
    Out() : f(env("VERIF_EVENTS", "/dev/stdout"), std::ios::app) {}
    void raw(std::string const &s) {
        std::lock_guard<std::mutex> l(m);
        f << s << std::endl;
    }
    // Remember the case being executed, so that a crash can be attributed.
    void casebegin(std::string const &c) { raw("{\"ev\":\"case\",\"case\":\"" + esc(c) + "\"}"); }
    void violation(std::string const &key, std::string const &msg, std::string const &c = "") {
        {
            std::lock_guard<std::mutex> l(m);
            ++nviol;
            if (nviol > 2000) return;
            if (!keys.insert(key).second) return; // first witness of each kind
        }
        raw("{\"ev\":\"violation\",\"key\":\"" + esc(key) + "\",\"msg\":\"" + esc(msg) + "\",\"case\":\"" + esc(c) + "\"}");
    }
    void eval(std::string const &distinct, bool nontrivial = true) {
        std::lock_guard<std::mutex> l(m);
        ++evals;
        if (nontrivial) seen.insert(std::hash<std::string>{}(distinct));
        if (nontrivial && nsamples < 6 && (evals % 37 == 1)) {
            ++nsamples;
            f << "{\"ev\":\"sample\",\"case\":\"" << esc(distinct.substr(0, 300)) << "\"}" << std::endl;
        }
    }
    void count(std::string const &name, long v) { raw("{\"ev\":\"count\",\"name\":\"" + esc(name) + "\",\"value\":" + std::to_string(v) + "}"); }
    void error(std::string const &msg) { raw("{\"ev\":\"error\",\"msg\":\"" + esc(msg) + "\"}"); }
    void done() {
        raw("{\"ev\":\"done\",\"evaluations\":" + std::to_string(evals) + ",\"distinct\":" + std::to_string(seen.size()) + "}");
    }
};
inline Out &out() {
    static Out o;
    return o;
}

template <class... A>
std::string str(A const &...a) {
    std::ostringstream os;
    os.precision(17);
    (os << ... << a);
    return os.str();
}

// Run a case; an escaping exception is a finding under `key`.
template <class F>
void guarded(std::string const &key, std::string const &c, F &&f) {
    try {
        f();
    } catch (std::exception const &e) {
        out().violation(key + ":exception", str("unexpected exception: ", e.what()), c);
    }
}
template <class F>
bool throws(F &&f) {
    try {
        f();
    } catch (std::exception const &) {
        return true;
    }
    return false;
}
inline bool close(double a, double b, double rel, double abs) {
    return std::isfinite(a) && std::isfinite(b) && std::abs(a - b) <= abs + rel * std::max(std::abs(a), std::abs(b));
}
} // namespace vh

#define VH_MAIN_END() \
    do { vh::out().done(); } while (0)

#endif
