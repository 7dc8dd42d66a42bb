// An independent evaluation of the defect database tables, and random databases.
#ifndef QDMODEL_HPP
#define QDMODEL_HPP
#include "EmbeddedDatabase.hpp"
#include "QuantumDefect.hpp"
#include "vh.hpp"
#include <map>
#include <optional>
#include <set>
#include <sqlite3.h>
#include <tuple>

using namespace vh;

struct Pot { double ac; int Z; double a1, a2, a3, a4, rc; };
struct Ryd { double d0, d2, d4, d6, d8, Ry; };
struct Model {
    std::map<std::pair<std::string, int>, Pot> pot;
    std::map<std::pair<std::string, int>, std::map<double, Ryd>> ryd;
    std::set<std::string> species;
    void load(sqlite3 *db) {
        sqlite3_stmt *s;
        sqlite3_prepare_v2(db, "select element,L,ac,Z,a1,a2,a3,a4,rc from model_potential", -1, &s, nullptr);
        while (sqlite3_step(s) == SQLITE_ROW) {
            std::string e = (char const *)sqlite3_column_text(s, 0);
            species.insert(e);
            pot.insert({{e, sqlite3_column_int(s, 1)},
                   Pot{sqlite3_column_double(s, 2), sqlite3_column_int(s, 3), sqlite3_column_double(s, 4), sqlite3_column_double(s, 5),
                       sqlite3_column_double(s, 6), sqlite3_column_double(s, 7), sqlite3_column_double(s, 8)}});
        }
        sqlite3_finalize(s);
        sqlite3_prepare_v2(db, "select element,L,J,d0,d2,d4,d6,d8,Ry from rydberg_ritz", -1, &s, nullptr);
        while (sqlite3_step(s) == SQLITE_ROW) {
            std::string e = (char const *)sqlite3_column_text(s, 0);
            species.insert(e);
            double v[6];
            for (int i = 0; i < 6; ++i) v[i] = sqlite3_column_double(s, 3 + i);
            ryd[{e, sqlite3_column_int(s, 1)}].insert({sqlite3_column_double(s, 2), Ryd{v[0], v[1], v[2], v[3], v[4], v[5]}});
        }
        sqlite3_finalize(s);
    }
    struct Ans { Pot p; double nstar, energy; };
    std::optional<Ans> eval(std::string const &e, int n, int l, double j) const {
        int pl = -1, rl = -1;
        for (auto const &x : pot) if (x.first.first == e) pl = std::max(pl, x.first.second);
        for (auto const &x : ryd) if (x.first.first == e) rl = std::max(rl, x.first.second);
        if (pl < 0 || rl < 0) return std::nullopt;
        pl = std::min(pl, l);
        rl = std::min(rl, l);
        auto pi = pot.find({e, pl});
        auto ri = ryd.find({e, rl});
        if (pi == pot.end() || ri == ryd.end()) return std::nullopt;
        double jm = ri->second.rbegin()->first;
        auto rj = ri->second.find(std::min(j, jm));
        if (rj == ri->second.end()) return std::nullopt;
        Ryd const &r = rj->second;
        long double x = (long double)n - r.d0;
        long double ns = n - (r.d0 + r.d2 / (x * x) + r.d4 / (x * x * x * x) + r.d6 / powl(x, 6) + r.d8 / powl(x, 8));
        // Hartree in GHz (CODATA, 2 R_inf c) as used by the library's documentation
        long double E = -.5L * (r.Ry / 109737.31568525L) / (ns * ns) * 6579683.920757349L;
        return Ans{pi->second, (double)ns, (double)E};
    }
};

inline std::string mkfile(std::string const &name, std::string const &sql) {
    std::string p = scratch() + "/" + name;
    std::ofstream(p) << sql;
    return p;
}
inline Model model_of(std::string const &sql) {
    sqlite3 *db;
    sqlite3_open(":memory:", &db);
    char *err = nullptr;
    sqlite3_exec(db, sql.c_str(), nullptr, nullptr, &err);
    Model m;
    m.load(db);
    sqlite3_close(db);
    return m;
}
// Random database: style 0 drops the tables first (as the shipped one does), style 1 just creates them.
inline std::string random_sql(Rng &r, int style) {
    std::ostringstream o;
    o.precision(10);
    if (style == 0) o << "DROP TABLE IF EXISTS model_potential; DROP TABLE IF EXISTS rydberg_ritz;";
    o << "CREATE TABLE " << (style == 1 ? "IF NOT EXISTS " : "")
      << "model_potential (element text,L int,ac real,Z int,a1 real,a2 real,a3 real,a4 real,rc real);\n";
    o << "CREATE TABLE " << (style == 1 ? "IF NOT EXISTS " : "")
      << "rydberg_ritz (element text,L int,J real,d0 real,d2 real,d4 real,d6 real,d8 real,Ry real);\n";
    for (std::string e : {"Rb", "Cs", "Sr1", "Sr3", "X", "H"}) {
        if (r.b(.25)) continue;
        int pl = r.i(0, 4), rl = r.i(0, 5);
        double s = e == "Sr1" ? 0 : e == "Sr3" ? 1 : .5;
        for (int l = 0; l <= pl; ++l)
            o << "INSERT INTO model_potential VALUES('" << e << "'," << l << "," << r.u(.1, 15) << "," << r.i(1, 60) << "," << r.u(1, 5) << ","
              << r.u(1, 3) << "," << r.u(-10, 10) << "," << r.u(-2, 2) << "," << r.u(.4, 8) << ");\n";
        for (int l = 0; l <= rl; ++l)
            for (double j = std::abs(l - s); j <= l + s; ++j) {
                if (r.b(.08)) continue; // a hole in the table
                o << "INSERT INTO rydberg_ritz VALUES('" << e << "'," << l << "," << j << "," << r.u(0, 4) << "," << r.u(-1, 1) << ","
                  << (r.b() ? r.u(-1, 1) : 0.) << "," << (r.b(.3) ? r.u(-1, 1) : 0.) << "," << (r.b(.2) ? r.u(-.1, .1) : 0.) << ","
                  << r.u(109600, 109737) << ");\n";
            }
    }
    return o.str();
}

struct Res { bool err; double v[9]; };
inline Res query(std::string const &s, int n, int l, double j, std::string const *db) {
    Res r{};
    try {
        auto take = [&](QuantumDefect const &q) {
            double v[9] = {q.ac, (double)q.Z, q.a1, q.a2, q.a3, q.a4, q.rc, q.nstar, q.energy};
            std::memcpy(r.v, v, sizeof v);
        };
        if (db)
            take(QuantumDefect(s, n, l, j, *db));
        else
            take(QuantumDefect(s, n, l, j));
    } catch (std::exception const &) {
        r.err = true;
    }
    return r;
}

#endif
