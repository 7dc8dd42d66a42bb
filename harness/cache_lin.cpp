// C03: histories of concurrent save/restore/clear on Cache, checked for linearizability.
#include "Cache.hpp"
#include "vh.hpp"
#include <algorithm>
#include <set>
#include <thread>

using namespace vh;

struct Val { // wide enough that a torn copy shows
    long id = 0;
    std::string text;
    std::array<long, 24> fill{};
    static Val make(long id) {
        Val v;
        v.id = id;
        v.text = "value-" + std::to_string(id) + std::string(40, 'a' + id % 26);
        v.fill.fill(id * 7 + 1);
        return v;
    }
    bool whole() const {
        Val o = make(id);
        return o.text == text && o.fill == fill;
    }
};
struct BadHash { size_t operator()(std::string const &) const { return 7; } };
struct GoodHash { size_t operator()(std::string const &s) const { return std::hash<std::string>{}(s); } };

enum Kind { SAVE, GET, CLEAR };
struct Op {
    Kind k;
    int key;
    long val;  // saved value
    long res;  // SAVE: 1 ok, 0 refused; GET: value id or -1
    long inv, ret;
};

// Wing-Gong search with memoisation; at most 30 operations, at most 3 keys.
struct Lin {
    std::vector<Op> const &h;
    std::set<std::pair<unsigned long, std::vector<long>>> seen;
    long steps = 0;
    explicit Lin(std::vector<Op> const &h) : h(h) {}
    bool go(unsigned long done, std::vector<long> const &st) {
        if (done == (1ul << h.size()) - 1) return true;
        if (!seen.insert({done, st}).second) return false;
        ++steps;
        long minret = std::numeric_limits<long>::max();
        for (size_t i = 0; i < h.size(); ++i)
            if (!(done >> i & 1)) minret = std::min(minret, h[i].ret);
        for (size_t i = 0; i < h.size(); ++i) {
            if (done >> i & 1 || h[i].inv > minret) continue;
            auto s = st;
            Op const &o = h[i];
            bool ok = true;
            if (o.k == CLEAR)
                std::fill(s.begin(), s.end(), -1);
            else if (o.k == GET)
                ok = o.res == s[o.key];
            else if (s[o.key] == -1) {
                ok = o.res == 1;
                s[o.key] = o.val;
            } else
                ok = o.res == 0;
            if (ok && go(done | 1ul << i, s)) return true;
        }
        return false;
    }
};

static std::string show(std::vector<Op> h) {
    std::sort(h.begin(), h.end(), [](Op const &a, Op const &b) { return a.inv < b.inv; });
    std::string s;
    for (auto const &o : h)
        s += str("[", o.inv, ",", o.ret, "] ", o.k == SAVE ? "save" : o.k == GET ? "get" : "clear", "(", o.key, o.k == SAVE ? str(",", o.val) : "", ")=", o.res, "; ");
    return s;
}

template <class H>
void round_small(Rng &r, long &overlaps, std::set<std::string> &outcomes) {
    Cache<std::string, Val, H> c;
    int T = (int)r.i(2, 4), per = T == 4 ? 6 : T == 3 ? 8 : 12, K = (int)r.i(1, 3);
    double pc = r.b(.5) ? .15 : .3;
    std::vector<std::string> keys = {"k0", "a much longer key that lives on the heap", "k2"};
    std::vector<std::vector<Op>> plan(T);
    long id = 1;
    for (auto &p : plan)
        for (int i = 0; i < per; ++i) {
            double x = r.u();
            p.push_back({x < pc ? CLEAR : x < .6 ? SAVE : GET, (int)r.i(0, K - 1), id++, 0, 0, 0});
        }
    std::atomic<long> clock{0};
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    std::vector<int> jitter(T);
    for (auto &j : jitter) j = (int)r.i(0, 200);
    for (int t = 0; t < T; ++t)
        ts.emplace_back([&, t] {
            ready++;
            while (ready < T) {}
            unsigned x = jitter[t] + 1;
            for (Op &o : plan[t]) {
                x = x * 1103515245 + 12345;
                for (volatile unsigned w = 0; w < (x >> 16) % 64; ++w) {}
                if ((x >> 8) % 16 == 0) std::this_thread::yield();
                std::string key = keys[o.key];
                Val v = Val::make(o.val);
                o.inv = clock++;
                if (o.k == SAVE) {
                    try {
                        c.save(key, v);
                        o.res = 1;
                    } catch (std::exception const &) {
                        o.res = 0;
                    }
                } else if (o.k == GET) {
                    auto g = c.restore(key);
                    o.res = g ? g->id : -1;
                    if (g && !g->whole()) out().violation("torn-value", "a looked-up value mixes parts of different values");
                } else {
                    c.clear();
                }
                o.ret = clock++;
            }
        });
    for (auto &t : ts) t.join();
    std::vector<Op> h;
    for (auto &p : plan) h.insert(h.end(), p.begin(), p.end());
    for (size_t i = 0; i < h.size(); ++i)
        for (size_t j = i + 1; j < h.size(); ++j)
            if (h[i].inv < h[j].ret && h[j].inv < h[i].ret) ++overlaps;
    Lin l(h);
    if (!l.go(0, std::vector<long>(K, -1))) out().violation("not-linearizable", "no sequential order explains the history", show(h));
    std::string sig;
    auto g = h;
    std::sort(g.begin(), g.end(), [](Op const &a, Op const &b) { return a.inv < b.inv; });
    for (auto const &o : g) sig += char('a' + o.k * 3 + o.key), sig += o.k == CLEAR ? 'c' : o.res == -1 ? 'n' : o.res == 0 ? 'x' : 'o';
    outcomes.insert(sig);
    out().eval(sig);
}

// Many entries: growth of the table while others look up; every lookup of a published key must succeed.
static void round_growth(Rng &r, int T) {
    Cache<long, Val> c;
    std::atomic<long> published{0};
    long N = n(1500, 6000);
    std::atomic<long> dup{0};
    std::vector<std::thread> ts;
    std::atomic<bool> stop{false};
    ts.emplace_back([&] {
        for (long i = 0; i < N; ++i) {
            c.save(i, Val::make(i));
            published = i + 1;
        }
        stop = true;
    });
    for (int t = 1; t < T; ++t)
        ts.emplace_back([&, t, s = r.g()] {
            std::mt19937_64 g(s);
            while (!stop) {
                long p = published;
                if (!p) continue;
                long k = (long)(g() % p);
                auto v = c.restore(k);
                if (!v || v->id != k || !v->whole()) out().violation("published-entry-missing", "an entry saved before was not found or has a wrong value");
                if (t == 1) {
                    try {
                        c.save(k, Val::make(-k - 1));
                        out().violation("overwritten", "a second save of a key reported success");
                    } catch (std::exception const &) {
                        dup++;
                    }
                }
                if (c.restore(N + k)) out().violation("phantom", "an entry never saved was found");
            }
        });
    for (auto &t : ts) t.join();
    for (long i = 0; i < N; ++i) {
        auto v = c.restore(i);
        if (!v || v->id != i || !v->whole()) out().violation("entry-lost", str("entry ", i, " missing or changed at the end"));
    }
    out().eval(str("growth", T, ",", r.i(0, 1000000)));
    out().count("refused_second_saves", dup);
}

int main() {
    Rng r(2);
    long overlaps = 0;
    std::set<std::string> outcomes;
    long N = std::atol(env("ROUNDS", "1500").c_str());
    for (long i = 0; i < N; ++i) {
        if (i % 3 == 0)
            round_small<BadHash>(r, overlaps, outcomes);
        else
            round_small<GoodHash>(r, overlaps, outcomes);
    }
    for (int i = 0; i < 4; ++i) round_growth(r, 2 + i);
    out().count("overlapping_pairs", overlaps);
    out().count("distinct_histories", (long)outcomes.size());
    VH_MAIN_END();
}
