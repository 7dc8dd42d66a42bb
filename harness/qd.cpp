// C01: level energies against an independent evaluation of the database tables,
// over random query histories spanning several databases.
#include "qdmodel.hpp"
#include <array>
#include <sys/stat.h>

int main() {
    Rng r(1);
    struct DB { std::string path; Model m; bool embedded, missing; };
    std::vector<DB> dbs;
    {
        EmbeddedDatabase e{};
        Model m;
        m.load(e);
        dbs.push_back({"", m, true, false});
    }
    int nd = (int)n(9, 40);
    for (int i = 0; i < nd; ++i) {
        std::string sql = random_sql(r, i % 2);
        // some databases share their file name, or only differ in the extension
        std::string dir = str("d", i % 3);
        mkdir((scratch() + "/" + dir).c_str(), 0755);
        dbs.push_back({mkfile(str(dir, "/db", i / 3, i / 3 % 3 == 2 ? ".db" : ".sql"), sql), model_of(sql), false, false});
    }
    dbs.push_back({scratch() + "/nosuch.sql", Model{}, false, true});
    dbs.push_back({mkfile("empty.sql", ""), Model{}, false, true});
    std::map<std::string, Res> memo;
    std::vector<std::string> names = {"Rb", "Cs", "Li", "Na", "K", "Sr1", "Sr3", "Yb", "H", "X", "nosuch", "", "rb", "Rb'"};
    for (auto const &s : dbs[0].m.species) names.push_back(s);
    long N = n(60000, 1500000), errs = 0, oks = 0, repeats = 0, switches = 0, falll = 0;
    size_t cur = 0;
    long burst = 0;
    for (long it = 0; it < N; ++it) {
        if (burst-- <= 0) {
            cur = r.b(.4) ? 0 : (size_t)r.i(0, (long)dbs.size() - 1);
            burst = r.b(.5) ? 0 : r.i(1, 60);
            if (r.b(.2)) burst = 0;
            ++switches;
        }
        static std::pair<std::string, std::array<double, 3>> last;
        DB &d = dbs[cur];
        if (!d.embedded) burst -= 3; // opening a file is slow
        bool same = it > 0 && r.b(.25); // the same level as before, often from another database
        std::string s = same ? last.first : r.pick(names);
        int nn = r.b(.9) ? (int)r.i(1, 90) : (int)r.i(91, 400);
        int l = r.b(.8) ? (int)r.i(0, std::min(nn - 1, 8)) : (int)r.i(0, nn - 1);
        double sp = s == "Sr1" ? 0 : s == "Sr3" ? 1 : .5;
        if (!s.empty() && isdigit(s.back())) sp = (s.back() - '1') / 2.;
        int k = (int)r.i(0, (long)(2 * std::min(sp, (double)l)));
        double j = std::abs(l - sp) + k;
        if (same) nn = (int)last.second[0], l = (int)last.second[1], j = last.second[2];
        last = {s, {(double)nn, (double)l, j}};
        std::string c = str(d.embedded ? "embedded" : d.path.substr(scratch().size() + 1), ":", s, ",", nn, ",", l, ",", j);
        bool viaOverload = d.embedded && r.b(.5);
        std::string empty;
        Res q = query(s, nn, l, j, d.embedded ? (viaOverload ? &empty : nullptr) : &d.path);
        auto a = d.missing ? std::nullopt : d.m.eval(s, nn, l, j);
        if (q.err != !a) {
            out().violation(q.err ? "error-for-covered-level" : "number-for-uncovered-level", str("expected ", a ? "a value" : "an error", " got the opposite, value ", q.v[8]), c);
        } else if (a) {
            double e[9] = {a->p.ac, (double)a->p.Z, a->p.a1, a->p.a2, a->p.a3, a->p.a4, a->p.rc, a->nstar, a->energy};
            for (int i = 0; i < 9; ++i) {
                bool ok = i < 7 ? q.v[i] == e[i] : i == 7 ? close(q.v[i], e[i], 1e-12, 1e-12) : (close(q.v[i], e[i], 1e-9, 0) || std::abs(e[7]) < 1e-3);
                if (!ok) out().violation(i < 7 ? "potential" : i == 7 ? "nstar" : "energy", str("field ", i, ": got ", q.v[i], " expected ", e[i]), c);
            }
            // energy and nstar of one answer must belong together, tightly
            ++oks;
            if (l > 3) ++falll;
        } else {
            ++errs;
        }
        auto m = memo.find(c);
        if (m == memo.end()) {
            memo[c] = q;
        } else {
            ++repeats;
            if (m->second.err != q.err || std::memcmp(m->second.v, q.v, sizeof q.v) != 0)
                out().violation("not-repeatable", str("first ", m->second.v[8], " later ", q.v[8]), c);
        }
        if (a && !q.err && r.b(.1)) {
            double e = energy_level(s, nn, l, j, d.embedded ? "" : d.path), ns = nstar(s, nn, l, j, d.embedded ? "" : d.path);
            if (e != q.v[8] || ns != q.v[7]) out().violation("free-functions", str(e, " vs ", q.v[8]), c);
        }
        out().eval(c, !q.err);
    }
    out().count("answered", oks);
    out().count("errors_reported", errs);
    out().count("repeated_queries", repeats);
    out().count("database_switches", switches);
    out().count("fallback_l", falll);
    VH_MAIN_END();
}
