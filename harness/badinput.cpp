// C24: configurations, tables of dipole elements, databases of quantum defects, matrices and database files of caches.
#include "badinput.hpp"
#include "ConfParser.hpp"
#include "MatrixElementCache.hpp"
#include "QuantumDefect.hpp"

// --- configurations ---
static std::string json(Rng &r, int depth = 0) {
    switch (r.i(0, depth > 3 ? 4 : 8)) {
    case 0: return str(r.i(-1000, 1000));
    case 1: return str(r.u(-10, 10));
    case 2: return r.pick(std::vector<std::string>{"true", "false", "null", "\"\"", "1e5", "\"nan\"", "\"1e999\"", "99999999999999999999"});
    case 3: case 4: {
        std::string s = "\"";
        for (long k = r.i(0, 8); k > 0; --k) s += r.pick(std::vector<std::string>{"a", "7", ".", "-", "\\n", "\\u00e9", "\\ud83d\\ude00", "\\\\", "\\\"", "é", "/"});
        return s + "\"";
    }
    case 5: case 6: {
        std::string s = "[";
        for (long k = r.i(0, 3); k > 0; --k) s += json(r, depth + 1) + (k > 1 ? ", " : "");
        return s + "]";
    }
    default: {
        std::string s = "{";
        for (long k = r.i(0, 4); k > 0; --k) s += "\"" + r.pick(std::vector<std::string>{"n1", "a", "a.b", "", "minEx", "x"}) + "\": " + json(r, depth + 1) + (k > 1 ? ",\n" : "");
        return s + "}";
    }
    }
}
static void configuration(Rng &r) {
    std::string b, c;
    switch (r.i(0, 5)) {
    case 0: for (long k = r.i(0, 60); k > 0; --k) b += (char)r.i(0, 255); c = "arbitrary"; break;
    case 1: for (long k = r.i(0, 60); k > 0; --k) b += "{}[]\",: 1\n\\ua"[r.i(0, 13)]; c = "brackets"; break;
    case 2: { long d = r.i(1, 400); b = std::string((size_t)d, r.b() ? '[' : '{') + std::string((size_t)r.i(0, d), ']'); c = str("deep ", d); break; }
    default: {
        b = "{\n";
        for (long k = r.i(1, 8); k > 0; --k) b += "\"" + r.pick(std::vector<std::string>{"n1", "minEx", "species1", "a.b", "steps", "x"}) + "\": " + json(r) + (k > 1 ? ",\n" : "\n}\n");
        if (r.b(.7)) b = r.b() ? tokens(r, b, c, NUMBERS) : bytes(r, b, c);
    }
    }
    std::string f = scratch() + "/conf.json";
    writef(f, b);
    Configuration k;
    c += " " + hex(b, 300);
    reads("configuration", c, [&] { k.load_from_json(f); });
    Configuration const &kc = k;
    std::vector<std::string> names;
    for (auto const &p : kc) names.push_back(p.first);
    names.push_back("absent");
    for (auto const &nm : names) {
        reads("entry", nm + c, [&] { int x; k[nm] >> x; use(x); });
        reads("entry", nm + c, [&] { size_t x; k[nm] >> x; use((double)x); });
        reads("entry", nm + c, [&] { float x; k[nm] >> x; use(x); });
        reads("entry", nm + c, [&] { double x; k[nm] >> x; use(x); });
        reads("entry", nm + c, [&] { std::string x; k[nm] >> x; use((double)x.size()); });
        reads("entry", nm + c, [&] { use((double)kc[nm].str().size()); });
    }
    reads("configuration again", c, [&] { k.save_to_json(f); Configuration l; l.load_from_json(f); });
}

// --- tables of dipole elements ---
static void table(Rng &r) {
    std::string b, c;
    std::string sp = r.pick(std::vector<std::string>{"Rb", "Sr3", "Sr1"});
    double s = sp == "Sr3" ? 1 : sp == "Sr1" ? 0 : .5;
    struct Row { int n1, l1, n2, l2; double j1, j2; };
    std::vector<Row> rows;
    if (r.b(.8)) b = "n1;l1;j1;n2;l2;j2;value\n";
    for (long k = r.i(0, 4); k > 0; --k) {
        int l = (int)r.i(0, 2), n1 = 5 + (int)r.i(0, 2), n2 = 5 + (int)r.i(0, 2);
        Row w{n1, l, n2, l + 1, l + s, l + 1 + s};
        rows.push_back(w);
        b += str(w.n1, ";", w.l1, ";", w.j1, ";", w.n2, ";", w.l2, ";", w.j2, ";", r.u(.1, 9), r.b(.2) ? ";more" : "", "\n");
    }
    static std::vector<std::string> const words = [] { auto v = NUMBERS; for (char const *x : {";", ";;", "'", "\"", "\n", "\"a;b\"", ";;;;;;", "1;2", "6;1;1.5;5;0;0.5", "\\n", "32767", "32766"}) v.push_back(x); return v; }();
    switch (r.i(0, 4)) {
    case 0: break;
    case 1: b = bytes(r, b, c); break;
    case 2: b.clear(); for (long k = r.i(0, 60); k > 0; --k) b += "0123;;;;.-\n'\""[r.i(0, 12)]; break;
    default: b = tokens(r, b, c, words);
    }
    std::string f = scratch() + "/table.csv";
    writef(f, b);
    c += " " + sp + " " + hex(b, 300);
    MatrixElementCache cache;
    reads("table", c, [&] { cache.loadElectricDipoleDB(f, sp); });
    use((double)cache.size());
    if (!rows.empty() && r.b(.3)) {
        auto const &w = r.pick(rows);
        reads("element", c, [&] {
            StateOne x(sp, w.n1, w.l1, (float)w.j1, (float)(s == .5 ? .5 : 0)), y(sp, w.n2, w.l2, (float)w.j2, (float)(s == .5 ? .5 : 0));
            use(cache.getElectricDipole(x, y));
        });
    }
    if (r.b(.1)) reads("table again", c, [&] { cache.loadElectricDipoleDB(f, sp); });
}

// --- databases of quantum defects ---
static std::string defects(Rng &r) {
    auto num = [&](char const *d) -> std::string {
        if (r.b(.75)) return d;
        return r.pick(std::vector<std::string>{"0", "-1", "1", "2147483648", "1e308", "-1e308", "9e999", "NULL", "'abc'", "''", "x'00ff'", "1e-320", "99999999999999999999", "'7'", "-9223372036854775808", "0.5"});
    };
    std::string b, ty = r.pick(std::vector<std::string>{"int", "real", "text", "blob", ""});
    if (r.b(.95)) b += "CREATE TABLE rydberg_ritz (element text, L " + ty + ", J real, d0 real, d2 " + ty + ", d4 real, d6 real, d8 real, Ry " + (r.b() ? "real" : ty) + ");\n";
    if (r.b(.95)) b += "CREATE TABLE model_potential (element text, L " + ty + ", ac real, Z " + ty + ", a1 real, a2 real, a3 real, a4 real, rc real);\n";
    for (long k = r.i(0, 3); k >= 0; --k) {
        std::string el = r.b(.8) ? "'Rb'" : r.pick(std::vector<std::string>{"NULL", "'Cs'", "1", "''"});
        if (r.b(.9)) b += "INSERT INTO rydberg_ritz VALUES (" + el + "," + num("0") + "," + num("0.5") + "," + num("3.13") + "," + num("0.178") + "," + num("0") + "," + num("0") + "," + num("0") + "," + num("109736.6") + ");\n";
        if (r.b(.9)) b += "INSERT INTO model_potential VALUES (" + el + "," + num("0") + "," + num("9.07") + "," + num("37") + "," + num("3.69") + "," + num("1.64") + "," + num("-9.86") + "," + num("0.19") + "," + num("1.66") + ");\n";
    }
    return b;
}
static void database(Rng &r, long it) {
    std::string c, b = defects(r);
    switch (r.i(0, 5)) {
    case 0: for (long k = r.i(0, 60); k > 0; --k) c += "x", b += (char)r.i(0, 255); break;
    case 1: b = bytes(r, b, c); break;
    case 2: { static std::vector<std::string> const w{"NULL", "(", ")", ",", ";", "'", "1", "INSERT", "INTO", "CREATE", "TABLE", "VALUES", "rydberg_ritz", "model_potential", "L", "J", "--", "/*", "\"", "SELECT", "DELETE FROM", "BEGIN;", "COMMIT;"}; b = tokens(r, b, c, w); break; }
    default: break;
    }
    std::string f = scratch() + str("/defects", it, ".sql"); // databases are told apart by their names
    writef(f, b);
    c += " " + b.substr(0, 900);
    for (int k = 0; k < 3; ++k) {
        int l = (int)r.i(0, 2);
        reads("defects", str(l, " ") + c, [&] {
            QuantumDefect q(r.b(.9) ? "Rb" : r.pick(std::vector<std::string>{"Cs", "", "X'"}), 8 + (int)r.i(0, 2), l, l + .5, f);
            for (double x : {q.ac, (double)q.Z, q.a1, q.a2, q.a3, q.a4, q.rc, q.nstar, q.energy}) use(x);
        });
        reads("defects", str("energy ", l, " ") + c, [&] { use(energy_level("Rb", 9, l, l + .5, f)); use(nstar("Rb", 9, l, l + .5, f)); });
    }
    std::filesystem::remove(f);
}

// --- matrices ---
template <class S>
static void matrix(Rng &r) {
    int fmt = (int)r.i(0, 2);
    std::string c = str(sizeof(S) == 8 ? "real " : "complex ", fmt == 0 ? "binary" : fmt == 1 ? "portable" : "json");
    if (r.b(.75)) {
        long rows = r.i(0, 6), cols = r.i(0, 6);
        Eigen::SparseMatrix<S> m((int)rows, (int)cols);
        std::vector<Eigen::Triplet<S>> t;
        for (long k = r.i(0, 10); k > 0 && rows && cols; --k) t.emplace_back((int)r.i(0, rows - 1), (int)r.i(0, cols - 1), S(r.normal()));
        m.setFromTriplets(t.begin(), t.end());
        std::string d = damage(r, pack(m, fmt), fmt, c);
        Eigen::SparseMatrix<S> g;
        if (r.b()) { g.resize(3, 3); g.insert(1, 1) = S(1); }
        c = str("sparse ", rows, "x", cols, " ", m.nonZeros(), " ") + c + (d.size() < 300 ? " " + hex(d) : "");
        if (reads("matrix", c, [&] { unpack(g, fmt, d); })) {
            std::string w = wellformed(g);
            if (!w.empty()) { out().violation("matrix:" + std::string(fmt == 2 ? "json" : "binary"), "accepted although " + w, c); return; }
            double sum = 0;
            for (int k = 0; k < g.outerSize(); ++k)
                for (typename Eigen::SparseMatrix<S>::InnerIterator i(g, k); i; ++i) sum += std::abs(i.value());
            if (g.rows() < 100 && g.cols() < 100) {
                Eigen::Matrix<S, Eigen::Dynamic, 1> v = Eigen::Matrix<S, Eigen::Dynamic, 1>::Ones(g.cols());
                sum += (g * v).cwiseAbs().sum();
            }
            use(sum);
        }
    } else if (r.b(.7)) {
        using D = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
        D m = D::Ones(r.i(0, 4), r.i(0, 4)), g;
        std::string d = damage(r, pack(m, fmt), fmt, c);
        c = str("dense ", m.rows(), "x", m.cols(), " ") + c + (d.size() < 300 ? " " + hex(d) : "");
        if (reads("matrix", c, [&] { unpack(g, fmt, d); })) use(g.cwiseAbs().sum());
    } else {
        using D = Eigen::Matrix<S, 3, 1>;
        D m = D::Ones(), g = D::Zero();
        std::string d = damage(r, pack(m, fmt), fmt, c);
        c = "vector " + c + (d.size() < 300 ? " " + hex(d) : "");
        if (reads("matrix", c, [&] { unpack(g, fmt, d); })) use(g.cwiseAbs().sum());
    }
}

// --- database files of element caches ---
static void caches(Rng &r, long it) {
    std::string dir = scratch() + str("/cache", it), c;
    std::filesystem::create_directories(dir);
    std::string sp = "Rb";
    auto fill = [&](MatrixElementCache &a) {
        for (int k = 0; k < 3; ++k) use(a.getElectricDipole(StateOne(sp, 6 + k % 2, 0, .5f, .5f), StateOne(sp, 6, 1, k ? 1.5f : .5f, .5f)));
        use(a.getRadial(StateOne(sp, 6, 0, .5f, .5f), StateOne(sp, 7, 0, .5f, .5f), 2));
    };
    {
        MatrixElementCache a(dir);
        fill(a);
    }
    std::string file;
    for (auto const &e : std::filesystem::directory_iterator(dir)) if (e.path().extension() == ".db") file = e.path().string();
    if (file.empty()) { out().error("no database was created in " + dir); return; }
    std::ifstream i(file, std::ios::binary);
    std::string b((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
    i.close();
    for (int k = 0; k < 6; ++k) {
        c = "database";
        std::string d = r.b(.1) ? b.substr(0, (size_t)r.i(0, 200)) : bytes(r, r.b(.3) ? bytes(r, b, c) : b, c);
        writef(file, d);
        std::filesystem::remove(file + "-journal");
        reads("cache database", c, [&] { MatrixElementCache a(dir); fill(a); use((double)a.size()); });
    }
    std::filesystem::remove_all(dir);
}

int main(int argc, char **argv) {
    std::string what = argc > 1 ? argv[1] : "all";
    long part = argc > 2 ? std::atol(argv[2]) : 0, trials = argc > 3 ? std::atol(argv[3]) : 1000;
    std::filesystem::current_path(scratch());
    Rng r(24 + 1000 * (unsigned long)part);
    for (long it = 0; it < trials; ++it) {
        if (what == "configuration") configuration(r);
        if (what == "table") table(r);
        if (what == "defects") database(r, it);
        if (what == "matrix") r.b() ? matrix<double>(r) : matrix<std::complex<double>>(r);
        if (what == "cache") caches(r, it);
    }
    for (auto const &t : tally) {
        out().count(t.first + " accepted", t.second[0]);
        out().count(t.first + " refused", t.second[1]);
    }
    use((double)positive);
    VH_MAIN_END();
}
