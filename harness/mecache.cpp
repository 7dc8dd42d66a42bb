// C14: matrix elements through every route (fresh, remembered, precalculated, on disk, other processes, other
// settings in between) against an independent evaluation and against each other.
// C23 ("fail"): the same with failing queries and failing storage in between.
#include "memodel.hpp"
#include "MatrixElementCache.hpp"
#include "SQLite.hpp"
#include <EmbeddedDatabase.hpp>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <filesystem>
using namespace vh;
namespace stdfs = std::filesystem;

static std::string othersql; // a second defect database: same species, shifted defects
static std::vector<std::string> species = {"Rb", "Cs", "K", "Sr1", "Sr3", "Li", "Na"};

static double spin(std::string const &s) { return s == "Sr1" ? 0 : s == "Sr3" ? 1 : .5; }
static StateOne state(Rng &r, std::string const &s, int n0 = 8, int n1 = 26, int lmax = 4) {
    for (;;) {
        int n = (int)r.i(n0, n1), l = (int)r.i(0, lmax);
        double j = l - spin(s) + r.i(0, (long)(2 * spin(s)));
        if (j < std::abs(l - spin(s))) continue;
        double m = -j + r.i(0, (long)(2 * j));
        return StateOne(s, n, l, (float)j, (float)m);
    }
}
struct Q {
    StateOne a, b;
    int kind, kr, ka;
    std::string s() const {
        auto f = [](StateOne const &x) { return str(x.getSpecies(), " ", x.getN(), ",", x.getL(), ",", x.getJ(), ",", x.getM()); };
        return str("kind ", kind, " kr ", kr, " ka ", ka, " <", f(a), "|..|", f(b), ">");
    }
};
static Q query(Rng &r) {
    std::string s = r.pick(species);
    Q q{state(r, s), state(r, s), (int)r.i(0, 5), 1, 1};
    if (r.b(.25)) q.b = q.a;
    if (r.b(.7)) { // near in l, j, m so that the selection rules allow it
        for (int t = 0; t < 200; ++t) {
            StateOne x = state(r, s);
            if (std::abs(x.getL() - q.a.getL()) <= 2 && std::abs(x.getM() - q.a.getM()) <= 1) { q.b = x; break; }
        }
    }
    if (q.kind == 4 && r.b(.6)) // magnetic: same l, neighbouring j and m
        for (int t = 0; t < 500; ++t) {
            StateOne x = state(r, s);
            if (x.getL() == q.a.getL() && std::abs(x.getM() - q.a.getM()) <= 1) { q.b = StateOne(s, r.b(.5) ? q.a.getN() : x.getN(), x.getL(), x.getJ(), x.getM()); break; }
        }
    switch (q.kind) {
    case 1: q.kr = q.ka = (int)r.i(1, 4); break;
    case 2: q.kr = (int)r.i(0, 4); q.ka = (int)r.i(0, 4); break;
    case 3: q.kr = 2; q.ka = r.b() ? 0 : 2; break;
    case 5: q.kr = (int)r.i(0, 5); break;
    }
    return q;
}
static double ask(MatrixElementCache &c, Q const &q) {
    switch (q.kind) {
    case 0: return c.getElectricDipole(q.a, q.b);
    case 1: return c.getElectricMultipole(q.a, q.b, q.kr);
    case 2: return c.getElectricMultipole(q.a, q.b, q.kr, q.ka);
    case 3: return c.getDiamagnetism(q.a, q.b, q.ka);
    case 4: return c.getMagneticDipole(q.a, q.b);
    default: return c.getRadial(q.a, q.b, q.kr);
    }
}
static double expected(Q const &q, int method, std::string const &db) {
    switch (q.kind) {
    case 0: return mem::multipole(method, q.a, q.b, 1, 1, db);
    case 1:
    case 2: return mem::multipole(method, q.a, q.b, q.kr, q.ka, db);
    case 3: return 2. / 3. * mem::e() * mem::multipole(method, q.a, q.b, 2, q.ka, db);
    case 4: return mem::magnetic(method, q.a, q.b, db);
    default: return mem::radial(method, q.a, q.b, q.kr, db);
    }
}
static double scale(Q const &q, int method, std::string const &db) {
    double R = std::abs(mem::radial(method, q.a, q.b, q.kind == 4 ? 0 : q.kind == 3 ? 2 : q.kr, db));
    if (q.kind == 4) return R * mem::muB();
    if (q.kind == 5) return R;
    return R * mem::e() * (q.kind == 3 ? mem::e() : 1);
}
static bool check(std::string const &route, double v, Q const &q, int method, std::string const &db) {
    double x = expected(q, method, db), sc = scale(q, method, db);
    if (!(std::abs(v - x) <= 5e-7 * sc + 1e-300)) {
        out().violation(str(route, ":kind", q.kind), str(route, ": ", v, " expected ", x, " method ", method, " db '", db.empty() ? "" : "other", "'"), q.s());
        return false;
    }
    return true;
}
static void precalc(Rng &r, MatrixElementCache &c, std::vector<StateOne> const &v) {
    int k = (int)r.i(1, 4), q = (int)r.i(-1, 1);
    switch (r.i(0, 4)) {
    case 0: c.precalculateElectricMomentum(v, q); break;
    case 1: c.precalculateMagneticMomentum(v, q); break;
    case 2: c.precalculateDiamagnetism(v, r.b() ? 0 : 2, (int)r.i(-2, 2)); break;
    case 3: c.precalculateMultipole(v, k); break;
    default: c.precalculateRadial(v, k);
    }
}
static std::string freshdir() {
    static int i = 0;
    std::string d = str(scratch(), "/cd", getpid(), "_", i++);
    stdfs::create_directories(d);
    return d;
}

static void values() {
    Rng r(14 + 100 * std::atol(env("VERIF_SHARD", "0").c_str()));
    long N = n(5, 60), M = n(260, 600);
    long disk_hits = 0, forks = 0, switches = 0, precalcs = 0, nonzero = 0, reloads = 0;
    for (long h = 0; h < N; ++h) {
        std::string dir = freshdir();
        auto mk = [&](bool disk) { return disk ? std::make_unique<MatrixElementCache>(dir) : std::make_unique<MatrixElementCache>(); };
        bool disk = r.b(.6);
        auto c = mk(disk);
        int method = r.b(.6) ? 0 : 1;
        c->setMethod((method_t)method);
        std::string db;
        std::vector<std::pair<Q, std::pair<int, double>>> past;
        for (long t = 0; t < M; ++t) {
            double u = r.u();
            std::string what;
            if (u < .03) { method = 1 - method; c->setMethod((method_t)method); ++switches; }
            else if (u < .045) { // change the defect database of a running cache
                db = r.b(.5) ? othersql : "";
                c->setDefectDB(db);
                ++switches;
                disk = false;
            } else if (u < .09) {
                std::vector<StateOne> v;
                std::string s = r.pick(species);
                long k = r.i(1, 9);
                for (long i = 0; i < k; ++i) v.push_back(r.b(.15) ? StateOne("artificial") : state(r, s));
                if (!past.empty() && r.b(.4)) { s = past.back().first.a.getSpecies(); v = {past.back().first.b, past.back().first.a}; }
                guarded("precalculate", "", [&] { precalc(r, *c, v); });
                ++precalcs;
            } else if (u < .11) { // start over with the same directory
                c = mk(disk = r.b(.8));
                db = "";
                c->setMethod((method_t)method);
            } else if (u < .12) { // serialise and go on with the copy
                std::stringstream ss;
                bool json = r.b(.3);
                guarded("serialise", "", [&] {
                    if (json) { { cereal::JSONOutputArchive a(ss); a(*c); } cereal::JSONInputArchive b(ss); auto d = std::make_unique<MatrixElementCache>(); b(*d); c = std::move(d); }
                    else { { cereal::BinaryOutputArchive a(ss); a(*c); } cereal::BinaryInputArchive b(ss); auto d = std::make_unique<MatrixElementCache>(); b(*d); c = std::move(d); }
                });
                ++reloads;
            } else {
                Q q = query(r);
                if (!past.empty() && r.b(.35)) {
                    q = past[(size_t)r.i(0, (long)past.size() - 1)].first;
                    if (r.b(.4)) std::swap(q.a, q.b);
                }
                out().casebegin(str("history ", h, " step ", t, " ", q.s()));
                guarded("query", q.s(), [&] {
                    double v = ask(*c, q);
                    if (v != 0) ++nonzero;
                    check(disk ? "disk" : "memory", v, q, method, db);
                    if (r.b(.1)) {
                        MatrixElementCache f;
                        f.setMethod((method_t)method);
                        if (!db.empty()) f.setDefectDB(db);
                        double w = ask(f, q);
                        if (!close(v, w, 1e-12, 1e-13 * scale(q, method, db))) out().violation("fresh", str("cached ", v, " fresh ", w), q.s());
                    }
                    if (r.b(.1)) { // Hermiticity: swapping the states only exchanges q and -q
                        Q p = q;
                        std::swap(p.a, p.b);
                        double w = ask(*c, p), sg = q.kind == 5 ? 1 : std::lround(std::abs(q.a.getM() - q.b.getM())) % 2 ? -1 : 1;
                        if (!close(v, sg * w, 1e-12, 1e-13 * scale(q, method, db))) out().violation(str("hermitian:kind", q.kind), str(v, " and ", w), q.s());
                    }
                    past.push_back({q, {method, v}});
                    out().eval(str(method, db.empty(), q.s()), v != 0);
                });
            }
            if (r.b(.004)) { // the object is used by a forked process as Python's multiprocessing does
                pid_t p = fork();
                if (p == 0) {
                    int bad = 0;
                    try {
                        for (int i = 0; i < 20; ++i) {
                            Q q = i % 2 && !past.empty() ? r.pick(past).first : query(r);
                            if (!check("forked", ask(*c, q), q, method, db)) bad = 1;
                        }
                    } catch (std::exception const &e) {
                        out().violation("forked:exception", e.what());
                        bad = 1;
                    }
                    _exit(bad);
                }
                int st = 0;
                waitpid(p, &st, 0);
                if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 1)) out().violation("forked:died", str("status ", st));
                ++forks;
            }
        }
        // everything asked so far, read back by a new object from the file only
        guarded("reread", "", [&] {
            auto d = mk(true);
            for (size_t i = 0; i < past.size(); i += 3) {
                d->setMethod((method_t)past[i].second.first);
                check("reread", ask(*d, past[i].first), past[i].first, past[i].second.first, "");
                ++disk_hits;
            }
        });
        // values in the file are complete: a second writer must not have stored anything else
        stdfs::remove_all(dir);
    }
    // literature values take precedence for exactly their pair of levels and method
    for (long h = 0; h < n(15, 100); ++h) {
        MatrixElementCache c, plain;
        int method = r.b() ? 0 : 1;
        c.setMethod((method_t)method);
        plain.setMethod((method_t)method);
        std::string s = r.pick(species), f = str(scratch(), "/dip.csv");
        std::map<std::string, double> given;
        std::vector<Q> qs;
        std::ofstream o(f);
        o.precision(17);
        o << "\"n1\";\"l1\";\"j1\";\"n2\";\"l2\";\"j2\";\"v\"\n";
        for (int i = 0; i < 400 && qs.size() < 5; ++i) {
            StateOne a = state(r, s), b = state(r, s);
            if (a.getN() >= b.getN() || std::abs(a.getL() - b.getL()) != 1 || std::abs(a.getJ() - b.getJ()) > 1 || a.getJ() + b.getJ() < 1) continue;
            double val = r.u(.1, 20);
            std::string k = str(a.getN(), a.getL(), a.getJ(), b.getN(), b.getL(), b.getJ());
            if (!given.insert({k, val}).second) continue;
            o << a.getN() << ";" << a.getL() << ";" << a.getJ() << ";" << b.getN() << ";" << b.getL() << ";" << b.getJ() << ";" << val << ";\"x\"\n";
            qs.push_back({a, b, 5, 1, 1});
        }
        o.close();
        guarded("literature", s, [&] {
            if (r.b()) for (auto &q : qs) ask(c, q);
            c.loadElectricDipoleDB(f, s);
            if (r.b()) { c.setDefectDB(othersql); c.setDefectDB(""); }
            for (auto &q : qs) {
                double val = given[str(q.a.getN(), q.a.getL(), q.a.getJ(), q.b.getN(), q.b.getL(), q.b.getJ())];
                // |<j1||C||j2>| from one component in the uncoupled basis
                double red = 0;
                for (double ma = -q.a.getJ(); ma <= q.a.getJ(); ++ma)
                    for (double mb = -q.b.getJ(); mb <= q.b.getJ(); ++mb) {
                        double x = mem::angular_multipole(StateOne(s, q.a.getN(), q.a.getL(), q.a.getJ(), (float)ma), StateOne(s, q.b.getN(), q.b.getL(), q.b.getJ(), (float)mb), 1);
                        red += x * x; // sum over all m, m' of |<jm|C_q|j'm'>|^2 equals the squared reduced element
                    }
                red = std::sqrt(red);
                double v = ask(c, q);
                if (!close(std::abs(v), val * 5.2917721067e-05 / red, 1e-6, 0)) out().violation("literature:value", str("radial ", v, " expected magnitude ", val * 5.2917721067e-05 / red), q.s());
                Q d = q;
                d.kind = 0;
                double dv = ask(c, d), an = mem::angular_multipole(d.a, d.b, 1);
                if (!close(dv, mem::e() * v * an, 5e-7, 5e-7 * std::abs(mem::e() * v))) out().violation("literature:dipole", str(dv, " expected ", mem::e() * v * an), q.s());
                out().eval(str("literature ", q.s()));
            }
            for (int i = 0; i < 6; ++i) {
                Q q = query(r);
                std::string k1 = str(q.a.getN(), q.a.getL(), q.a.getJ(), q.b.getN(), q.b.getL(), q.b.getJ()), k2 = str(q.b.getN(), q.b.getL(), q.b.getJ(), q.a.getN(), q.a.getL(), q.a.getJ());
                if (q.a.getSpecies() == s && (given.count(k1) || given.count(k2))) continue;
                check("literature:other", ask(c, q), q, method, "");
            }
        });
    }
    // several processes fill and read one file at the same time
    long procs = 0;
    for (long round = 0; round < n(2, 20); ++round) {
        std::string dir = freshdir();
        std::vector<pid_t> ps;
        for (int p = 0; p < 6; ++p) {
            pid_t c = fork();
            if (c == 0) {
                int bad = 0;
                Rng q(500 + (unsigned long)round * 10 + (p % 3)); // pairs of processes ask the same questions
                Rng d(900 + (unsigned long)round * 10 + p);
                try {
                    MatrixElementCache m(dir);
                    for (int i = 0; i < 60; ++i) {
                        Q x = query(q);
                        if (d.b(.2)) usleep((useconds_t)d.i(0, 3000));
                        if (!check("processes", ask(m, x), x, 0, "")) bad = 1;
                    }
                } catch (std::exception const &e) {
                    out().violation("processes:exception", e.what());
                    bad = 1;
                }
                _exit(bad);
            }
            ps.push_back(c);
        }
        for (pid_t p : ps) {
            int st = 0;
            waitpid(p, &st, 0);
            ++procs;
            if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) out().violation("processes:died", str("status ", st));
        }
        guarded("processes", "reread", [&] {
            MatrixElementCache m(dir);
            for (int k = 0; k < 3; ++k) {
                Rng q(500 + (unsigned long)round * 10 + k);
                for (int i = 0; i < 60; ++i) { Q x = query(q); check("processes:reread", ask(m, x), x, 0, ""); out().eval(str("processes ", x.s())); }
            }
        });
        stdfs::remove_all(dir);
    }
    out().count("nonzero", nonzero);
    out().count("reread_from_file", disk_hits);
    out().count("forked_users", forks);
    out().count("setting_changes", switches);
    out().count("precalculations", precalcs);
    out().count("serialised", reloads);
    out().count("concurrent_processes", procs);
}

static void fail() {
    Rng r(23 + 100 * std::atol(env("VERIF_SHARD", "0").c_str()));
    signal(SIGXFSZ, SIG_IGN);
    long errors = 0, stored_fail = 0, damaged = 0, after = 0, refused = 0, locks = 0;
    std::string nospecies = str(scratch(), "/partial.sql");
    for (long h = 0; h < n(14, 150); ++h) {
        std::string dir = freshdir();
        bool disk = r.b(.8);
        auto mk = [&] { return disk ? std::make_unique<MatrixElementCache>(dir) : std::make_unique<MatrixElementCache>(); };
        auto c = mk();
        int method = r.b(.7) ? 0 : 1;
        c->setMethod((method_t)method);
        std::vector<Q> good;
        auto probe = [&](char const *when) {
            Q q = !good.empty() && r.b(.4) ? r.pick(good) : query(r);
            guarded(str(when, ":query"), q.s(), [&] {
                double v = ask(*c, q);
                check(when, v, q, method, "");
                good.push_back(q);
                ++after;
                out().eval(str(when, q.s()));
            });
        };
        for (int i = 0; i < 5; ++i) probe("before");
        for (long t = 0; t < 14; ++t) {
            int kind = (int)r.i(0, 6);
            if (kind == 0) { // unknown species, or levels nobody tabulated
                std::string s = r.b(.5) ? "nosuch" : "Xx";
                Q q = query(r);
                q.a = StateOne(s, 20, 1, 1.5f, .5f);
                q.b = r.b() ? q.a : StateOne(s, 21, 0, .5f, .5f);
                if (q.kind == 4) q.b = StateOne(s, 21, 1, .5f, .5f);
                if (!throws([&] { ask(*c, q); })) out().violation("unknown:answered", "a query for an unknown species was answered", q.s());
                ++errors;
            } else if (kind == 1) { // precalculation for an unknown species
                std::vector<StateOne> v;
                for (int i = 0; i < 4; ++i) v.push_back(StateOne("nosuch", 20 + i, i % 2, .5f, .5f));
                try { precalc(r, *c, v); } catch (std::exception const &) { ++refused; }
                ++errors;
            } else if (kind == 2) { // different species
                Q q = query(r);
                q.kind = (int)r.i(0, 5);
                q.b = StateOne(q.a.getSpecies() == "Rb" ? "Cs" : "Rb", 20, q.a.getL(), q.a.getL() + .5f, .5f);
                if (!throws([&] { ask(*c, q); })) out().violation("mixed:answered", "a query between two species was answered", q.s());
                ++errors;
            } else if (kind == 3 && disk) { // no space left: writing beyond the current size of the file fails
                struct rlimit old, lim;
                getrlimit(RLIMIT_FSIZE, &old);
                lim = old;
                std::string f;
                for (auto &e : stdfs::directory_iterator(dir)) f = e.path().string();
                lim.rlim_cur = (rlim_t)(r.b(.5) ? stdfs::file_size(f) / 2 : stdfs::file_size(f));
                std::ofstream keep(scratch() + "/dummy"); // (the event log must stay writable: it is flushed outside)
                std::vector<std::pair<Q, double>> got;
                int nerr = 0;
                setrlimit(RLIMIT_FSIZE, &lim);
                for (int i = 0; i < 4; ++i) {
                    Q q = query(r);
                    try { double v = ask(*c, q); got.push_back({q, v}); } catch (std::exception const &) { ++nerr; }
                }
                setrlimit(RLIMIT_FSIZE, &old);
                for (auto &g : got) check("full", g.second, g.first, method, "");
                stored_fail += nerr;
            } else if (kind == 4 && disk) { // somebody holds the file for a while
                std::string f;
                for (auto &e : stdfs::directory_iterator(dir)) f = e.path().string();
                int fd[2];
                if (pipe(fd)) continue;
                int hold = (int)r.i(20, 150);
                pid_t p = fork();
                if (p == 0) {
                    sqlite3 *s;
                    sqlite3_open(f.c_str(), &s);
                    sqlite3_exec(s, "begin exclusive", nullptr, nullptr, nullptr);
                    if (write(fd[1], "x", 1) != 1) _exit(1);
                    usleep((useconds_t)hold * 1000);
                    sqlite3_exec(s, r.b() ? "commit" : "rollback", nullptr, nullptr, nullptr);
                    _exit(0);
                }
                char b;
                if (read(fd[0], &b, 1) != 1) out().error("pipe");
                probe("locked");
                int st;
                waitpid(p, &st, 0);
                ::close(fd[0]);
                ::close(fd[1]);
                ++locks;
            } else if (kind == 5) { // a defect database without the species
                auto keep = std::move(c);
                c = std::make_unique<MatrixElementCache>();
                c->setMethod((method_t)method);
                for (int i = 0; i < 3; ++i) probe("memory-before");
                c->setDefectDB(nospecies);
                Q q = query(r);
                q.kind = 5;
                q.a = StateOne(q.a.getSpecies() == "Rb" ? "Cs" : q.a.getSpecies(), q.a.getN(), q.a.getL(), q.a.getJ(), q.a.getM());
                if (q.a.getSpecies() == "Cs") q.b = q.a;
                if (!throws([&] { ask(*c, q); })) out().violation("uncovered:answered", "a species missing in the defect database was answered", q.s());
                Q g{StateOne("Rb", (int)r.i(10, 30), 1, 1.5f, .5f), StateOne("Rb", (int)r.i(10, 30), 0, .5f, .5f), 0, 1, 1};
                guarded("uncovered:after", g.s(), [&] { check("uncovered:after", ask(*c, g), g, method, nospecies); });
                c->setDefectDB("");
                for (int i = 0; i < 3; ++i) probe("memory-after");
                c = std::move(keep);
                ++errors;
            } else if (kind == 6 && disk && r.b(.4)) { // the file is damaged: values or errors, never wrong values
                std::string f;
                for (auto &e : stdfs::directory_iterator(dir)) f = e.path().string();
                std::string bak = scratch() + "/bak.db";
                stdfs::copy_file(f, bak, stdfs::copy_options::overwrite_existing);
                auto sz = stdfs::file_size(f);
                if (r.b()) stdfs::resize_file(f, (uintmax_t)r.i(1, (long)sz - 1));
                else { std::fstream g(f, std::ios::in | std::ios::out | std::ios::binary); std::string x; for (int i = 0; i < 100; ++i) x += (char)r.i(0, 255); g.write(x.data(), 100); }
                for (int i = 0; i < 4; ++i) {
                    Q q = r.b() ? query(r) : r.pick(good);
                    try { check("damaged", ask(*c, q), q, method, ""); } catch (std::exception const &) { ++stored_fail; }
                    if (r.b(.3)) { try { MatrixElementCache d(dir); d.setMethod((method_t)method); check("damaged", ask(d, q), q, method, ""); } catch (std::exception const &) { ++refused; } }
                }
                c.reset();
                for (auto &e : stdfs::directory_iterator(dir)) stdfs::remove(e.path());
                stdfs::copy_file(bak, f);
                c = mk();
                c->setMethod((method_t)method);
                ++damaged;
            }
            probe("after");
            if (r.b(.3)) probe("after");
            if (r.b(.15)) { c = mk(); c->setMethod((method_t)method); probe("reopened"); }
        }
        if (disk) guarded("later", "", [&] {
            MatrixElementCache d(dir);
            d.setMethod((method_t)method);
            for (auto &q : good) check("later", ask(d, q), q, method, "");
        });
        stdfs::remove_all(dir);
    }
    out().count("failing_queries", errors);
    out().count("failed_stores", stored_fail);
    out().count("damaged_files", damaged);
    out().count("transient_locks", locks);
    out().count("queries_judged_afterwards", after);
}

int main(int argc, char **argv) {
    // a second database: the embedded one with all Rydberg-Ritz defects shifted
    EmbeddedDatabase db{};
    auto dump = [&](std::string const &file, double shift, std::string const &onlysp) {
        std::ofstream o(file);
        o.precision(17);
        o << "create table rydberg_ritz (element text, L int, J double, d0 double, d2 double, d4 double, d6 double, d8 double, Ry double);\n"
             "create table model_potential (element text, L int, ac double, Z int, a1 double, a2 double, a3 double, a4 double, rc double);\n";
        for (char const *t : {"rydberg_ritz", "model_potential"}) {
            sqlite3_stmt *s;
            bool rr = std::string(t) == "rydberg_ritz";
            std::string sql = rr ? "select element,L,J,d0,d2,d4,d6,d8,Ry from rydberg_ritz" : "select element,L,ac,Z,a1,a2,a3,a4,rc from model_potential";
            sqlite3_prepare_v2(db, sql.c_str(), -1, &s, nullptr);
            while (sqlite3_step(s) == SQLITE_ROW) {
                std::string e = (char const *)sqlite3_column_text(s, 0);
                if (!onlysp.empty() && e != onlysp) continue;
                o << "insert into " << t << " values ('" << e << "'";
                for (int i = 1; i < 9; ++i) o << "," << (sqlite3_column_double(s, i) + (rr && i == 3 ? shift : 0));
                o << ");\n";
            }
            sqlite3_finalize(s);
        }
    };
    othersql = scratch() + "/other.sql";
    dump(othersql, -.07, "");
    dump(scratch() + "/partial.sql", .02, "Rb");
    if (argc > 1 && std::string(argv[1]) == "fail") fail();
    else values();
    VH_MAIN_END();
}
