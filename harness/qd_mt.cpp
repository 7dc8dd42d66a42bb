// C02: concurrent level queries, built with the race detector.
#include "qdmodel.hpp"
#include <thread>

struct Barrier {
    std::atomic<int> c{0}, gen{0};
    int n;
    explicit Barrier(int n) : n(n) {}
    void wait() {
        int g = gen.load();
        if (c.fetch_add(1) + 1 == n) {
            c = 0;
            gen = g + 1;
        } else
            while (gen.load() == g) std::this_thread::yield();
    }
};

int main() {
    struct DB { std::string path; Model m; };
    Rng r0(3);
    std::vector<DB> dbs;
    {
        EmbeddedDatabase e{};
        Model m;
        m.load(e);
        dbs.push_back({"", m});
    }
    for (int i = 0; i < 3; ++i) {
        std::string sql = random_sql(r0, i % 2);
        dbs.push_back({mkfile(str("db", i, ".sql"), sql), model_of(sql)});
    }
    std::vector<std::string> names(dbs[0].m.species.begin(), dbs[0].m.species.end());
    std::atomic<long> contended{0}, total{0}, errs{0};
    // phase 0: one database, everybody asks for the same new levels at once
    // phase 1: one database, random levels; phase 2: several databases at once
    int const rounds = (int)n(12, 120);
    for (int round = 0; round < rounds; ++round) {
        int phase = round % 3, T = 2 + (int)r0.i(0, 6);
        Barrier bar(T);
        int per = phase == 2 ? 60 : 150;
        unsigned long rs = r0.g();
        std::vector<std::thread> ts;
        for (int t = 0; t < T; ++t)
            ts.emplace_back([&, t, phase, per, rs] {
                Rng shared(rs), own(rs + 1 + t);
                for (int k = 0; k < per; ++k) {
                    Rng &r = phase == 0 ? shared : own;
                    size_t di = phase == 2 ? (size_t)r.i(0, (long)dbs.size() - 1) : 0;
                    DB &d = dbs[di];
                    std::string s = phase == 2 ? std::vector<std::string>{"Rb", "Cs", "Sr3", "nosuch"}[r.i(0, 3)] : names[r.i(0, (long)names.size() - 1)];
                    int nn = (int)r.i(20, phase == 0 ? 20000 : 60), l = (int)r.i(0, 6);
                    double sp = isdigit(s.back()) ? (s.back() - '1') / 2. : .5;
                    double j = std::abs(l - sp) + r.i(0, (long)(2 * std::min(sp, (double)l)));
                    if (phase == 0) bar.wait();
                    std::string c = str("db", di, ":", s, ",", nn, ",", l, ",", j, " threads=", T, " phase=", phase);
                    auto a = d.m.eval(s, nn, l, j);
                    std::string what;
                    Res q{};
                    try {
                        if (own.b(.1)) {
                            q.v[8] = energy_level(s, nn, l, j, d.path);
                            q.v[7] = nstar(s, nn, l, j, d.path);
                        } else if (d.path.empty() && own.b(.5)) {
                            QuantumDefect x(s, nn, l, j);
                            q.v[8] = x.energy, q.v[7] = x.nstar;
                        } else {
                            QuantumDefect x(s, nn, l, j, d.path);
                            q.v[8] = x.energy, q.v[7] = x.nstar;
                        }
                    } catch (std::exception const &e) {
                        q.err = true;
                        what = e.what();
                    }
                    ++total;
                    if (q.err != !a)
                        out().violation(q.err ? "query-failed" : "number-for-uncovered-level", str(what, " (other threads were querying)"), c);
                    else if (a && (!close(q.v[7], a->nstar, 1e-12, 1e-12) || !(close(q.v[8], a->energy, 1e-9, 0) || std::abs(a->nstar) < 1e-3)))
                        out().violation("wrong-value", str("got nstar=", q.v[7], " E=", q.v[8], " expected ", a->nstar, " ", a->energy), c);
                    if (q.err) ++errs;
                    out().eval(c, !q.err);
                }
            });
        for (auto &t : ts) t.join();
    }
    out().count("queries", total);
    out().count("errors_reported", errs);
    out().count("rounds", rounds);
    VH_MAIN_END();
}
