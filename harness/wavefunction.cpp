// C13: radial wavefunctions of both methods against an independent high-resolution integration of the
// radial Schroedinger equation, closed-form hydrogen functions and the laws radial integrals obey.
#include "vh.hpp"
#include "QuantumDefect.hpp"
#include "Wavefunction.hpp"
#include "SQLite.hpp"
#include <EmbeddedDatabase.hpp>
#include <map>
#include <set>
using namespace vh;
typedef long double ld;

struct Level { std::string sp; int n, l; double j; std::string db; std::string s() const { return str(sp, " n=", n, " l=", l, " j=", j); } };

// Own solution: Numerov with a finer step in long double on y'' = G(x) y with x = sqrt(r).
struct Ref { std::vector<double> x, y; };
static ld pot(QuantumDefect const &q, ld r) {
    ld Zl = 1 + (q.Z - 1) * expl(-(ld)q.a1 * r) - r * ((ld)q.a3 + (ld)q.a4 * r) * expl(-(ld)q.a2 * r);
    ld v = -Zl / r - (ld)q.ac / (2 * r * r * r * r) * -expm1l(-powl(r / (ld)q.rc, 6));
    if (q.l < 4) {
        ld s = .5L;
        char c = q.species.back();
        if (c >= '0' && c <= '9') s = ((c - '0') - 1) / 2.L;
        ld al = 7.2973525664e-3L;
        v += al * al / (4 * r * r * r) * (q.j * (q.j + 1) - q.l * (q.l + 1) - s * (s + 1));
    }
    return v;
}
static Ref reference(QuantumDefect const &q, double xmin, double xmax, int K) {
    ld h = .01L / K, E = (ld)q.energy / 6579683.920757349L;
    int N = (int)llroundl((xmax - xmin) / h) + 1;
    auto G = [&](ld x) { ld r = x * x; return (2 * q.l + .5L) * (2 * q.l + 1.5L) / r + 8 * r * (pot(q, r) - E); };
    std::vector<ld> y(N);
    y[N - 1] = 0;
    y[N - 2] = (q.n - q.l) % 2 == 0 ? -1e-10L : 1e-10L;
    ld g2 = G(xmin + (N - 1) * h), g1 = G(xmin + (N - 2) * h);
    ld norm = 0;
    for (int i = N - 3; i >= 0; --i) {
        ld g0 = G(xmin + i * h);
        y[i] = ((2 + 5.L / 6 * h * h * g1) * y[i + 1] - (1 - h * h * g2 / 12) * y[i + 2]) / (1 - h * h * g0 / 12);
        g2 = g1;
        g1 = g0;
        if (fabsl(y[i]) > 1e2000L)
            for (int k = i; k < N; ++k) y[k] *= 1e-2000L;
    }
    for (int i = 0; i < N; ++i) { ld x = xmin + i * h; norm += 2 * y[i] * y[i] * x * x * h; }
    norm = sqrtl(norm);
    Ref r;
    for (int i = 0; i < N; i += K) { r.x.push_back((double)(xmin + i * h)); r.y.push_back((double)(y[i] / norm)); }
    return r;
}
// r R_nl(r) of hydrogen, with the sign convention of the library (positive outermost lobe is (-1)^(n-l-1) there)
static double hyd(int n, int l, double r) {
    double rho = 2 * r / n, a = 2 * l + 1, lg = 0;
    int k = n - l - 1;
    double L0 = 1, L1 = k > 0 ? 1 + a - rho : 1, sc = 0;
    if (k > 0)
        for (int i = 1; i < k; ++i) {
            double L2 = ((2 * i + 1 + a - rho) * L1 - (i + a) * L0) / (i + 1);
            L0 = L1;
            L1 = L2;
            if (std::abs(L1) > 1e150) { L0 *= 1e-150; L1 *= 1e-150; sc += 150 * M_LN10; }
        }
    double L = k > 0 ? L1 : 1;
    if (L == 0) return 0;
    lg = (l + 1) * std::log(rho) - rho / 2 + .5 * (std::lgamma(n - l) - std::lgamma(n + l + 1)) - std::log(n) + sc + std::log(std::abs(L));
    return std::copysign(std::exp(lg), L);
}
static double hydint(int n1, int l1, int p, int n2, int l2) {
    double X = std::sqrt(2. * std::max(n1, n2) * (std::max(n1, n2) + 25)), s = 0;
    int N = (int)(X / .004);
    double h = X / N;
    for (int i = 1; i < N; ++i) {
        double x = i * h, r = x * x;
        s += hyd(n1, l1, r) * hyd(n2, l2, r) * std::pow(r, p) * 2 * x * h;
    }
    return s;
}

template <class T>
static double norm(Eigen::MatrixXd const &a) {
    double s = 0;
    for (int i = 0; i < a.rows(); ++i) s += a(i, 1) * a(i, 1) * std::pow(a(i, 0), (double)T::power_kernel(0)) * 2 * T::dx;
    return s;
}
static std::map<std::string, double> worst;
static void judge(std::string const &key, double err, double tol, std::string const &c) {
    auto &w = worst[key];
    if (!(err <= w)) w = err;
    if (!(err <= tol)) out().violation(key, str("deviation ", err, " exceeds ", tol, " for ", c), c);
}

template <class T>
static bool grid_ok(std::string const &m, Level const &L, Eigen::MatrixXd const &a) {
    std::string c = m + " " + L.s();
    if (a.cols() != 2 || a.rows() < 3) { out().violation(m + ":grid", "too few points", c); return false; }
    double xmax = std::sqrt(2. * L.n * (L.n + 15));
    for (int i = 0; i < a.rows(); ++i) {
        if (!std::isfinite(a(i, 0)) || !std::isfinite(a(i, 1))) { out().violation(m + ":finite", str("point ", i, " x=", a(i, 0), " y=", a(i, 1)), c); return false; }
        if (i && !(a(i, 0) > a(i - 1, 0))) { out().violation(m + ":increasing", str("grid not increasing at ", i), c); return false; }
        if (i && std::abs(a(i, 0) - a(i - 1, 0) - T::dx) > 1e-9) { out().violation(m + ":spacing", str("grid spacing at ", i), c); return false; }
        if (!(a(i, 0) > 0)) { out().violation(m + ":positive", "grid reaches the origin", c); return false; }
    }
    if (a(a.rows() - 1, 0) < xmax - .05 || a(a.rows() - 1, 0) > xmax + .05) out().violation(m + ":range", str("outer end ", a(a.rows() - 1, 0), " expected ", xmax), c);
    return true;
}

int main() {
    Rng r(13 + 1000 * std::atol(env("VERIF_SHARD", "0").c_str()));
    std::string hdb = scratch() + "/h.sql";
    {
        std::ofstream f(hdb);
        f << "create table rydberg_ritz (element text, L int, J double, d0 double, d2 double, d4 double, d6 double, d8 double, Ry double);\n"
             "create table model_potential (element text, L int, ac double, Z int, a1 double, a2 double, a3 double, a4 double, rc double);\n";
        for (int l = 0; l < 2; ++l)
            for (double j : {std::abs(l - .5), l + .5}) {
                f << "insert into rydberg_ritz values ('H'," << l << "," << j << ",0,0,0,0,0,109737.31568525);\n";
                if (j > l) f << "insert into model_potential values ('H'," << l << ",0,1,1,1,0,0,1);\n";
            }
    }
    std::vector<std::string> sp;
    {
        EmbeddedDatabase db{};
        sqlite::statement st(db);
        st.set("select distinct element from rydberg_ritz where element in (select element from model_potential) order by element;");
        st.prepare();
        while (st.step()) sp.push_back(st.get<std::string>(0));
    }
    std::map<std::string, int> ground = {{"Rb", 5}, {"Cs", 6}, {"Li", 2}, {"Na", 3}, {"K", 4}, {"Sr1", 6}, {"Sr3", 6}};
    std::map<std::string, int> maxl;
    for (auto &s : sp) {
        EmbeddedDatabase db{};
        sqlite::statement st(db);
        st.set("select max(L) from rydberg_ritz where element = ?;");
        st.prepare();
        st.bind(1, s);
        st.step();
        maxl[s] = st.get<int>(0);
    }
    auto pick_level = [&](std::string const &s, int nmin, int nmax, int lcap) {
        for (;;) {
            Level L;
            L.sp = s;
            L.n = (int)r.i(nmin, nmax);
            L.l = (int)r.i(0, std::min(L.n - 1, lcap));
            double spin = s == "Sr1" ? 0 : s == "Sr3" ? 1 : .5;
            L.j = L.l - spin + r.i(0, (long)(2 * spin));
            if (L.j < std::abs(L.l - spin)) continue;
            L.db = s == "H" ? hdb : "";
            try {
                QuantumDefect q(L.sp, L.n, L.l, L.j, L.db);
                if (q.nstar < L.l + .7 || q.nstar < 1.2 || q.nstar > L.n + .01) continue;
            } catch (std::exception const &) {
                continue;
            }
            return L;
        }
    };
    std::vector<std::string> all = sp;
    all.push_back("H");
    all.push_back("H");
    long NL = n(150, 2500), NP = n(150, 2500), NF = n(300, 4000);
    long high = 0;
    for (long it = 0; it < NL; ++it) {
        std::string s = r.pick(all);
        int g = ground.count(s) ? ground[s] : 1;
        Level L = r.b(.75) ? pick_level(s, g, 90, 6) : r.b(.5) ? pick_level(s, g, 60, 59) : pick_level(s, 90, 250, 4);
        std::string c = L.s();
        out().casebegin(c);
        guarded("level", c, [&] {
            QuantumDefect q(L.sp, L.n, L.l, L.j, L.db);
            if (L.n > 90) ++high;
            for (int i = 0; i < 8; ++i) {
                double x = std::exp(r.u(std::log(.05), std::log(5e4))), v = (double)pot(q, x), so = std::abs(v) * 1e-10 + 1e-9 * std::pow(x, -3) * 1e-5;
                judge("potential", std::abs(model_potential::V(q, x) - v) / so, 1, str(c, " r=", x));
                double E = q.energy / 6579683.920757349, g = (2. * q.l + .5) * (2. * q.l + 1.5) / x + 8 * x * (v - E);
                judge("kernel", std::abs(model_potential::g(q, x) - g) / (8 * x * (so + std::abs(E) * 1e-8) + 1e-11 * (q.l + 1) * (q.l + 1) / x), 1, str(c, " r=", x));
            }
            auto a = Numerov(q).integrate();
            bool ok = grid_ok<Numerov>("numerov", L, a);
            if (ok) {
                judge("numerov:norm", std::abs(norm<Numerov>(a) - 1), 1e-6, c);
                auto ref = reference(q, a(0, 0), a(a.rows() - 1, 0), L.n < 12 ? 8 : 4);
                double mx = 0, err = 0;
                if ((int)ref.y.size() != a.rows()) out().violation("numerov:points", "number of points", c);
                else {
                    for (int i = 0; i < a.rows(); ++i) { mx = std::max(mx, std::abs(ref.y[i])); err = std::max(err, std::abs(ref.y[i] - a(i, 1)) * std::sqrt(a(i, 0))); }
                    // both solutions blow up where the physical one has decayed: judge where the grid carries the state
                    judge(q.nstar > L.l + 3 ? "numerov:solution" : "numerov:solution-low", err / mx, q.nstar > L.l + 3 ? .003 : .02, c);
                }
            }
            if (L.sp == "H" || L.l <= maxl[L.sp]) {
                auto w = Whittaker(q).integrate();
                if (grid_ok<Whittaker>("whittaker", L, w)) {
                    // truncated at one Bohr radius, irregular at the origin: exact only for Rydberg levels
                    if (q.nstar > 20) judge("whittaker:norm", std::abs(norm<Whittaker>(w) - 1), .03, c);
                    if (q.nstar > 20 && L.l < q.nstar - 5 && ok) {
                        double err = 0, mx = 0;
                        int off = (int)std::lround((a(0, 0) - w(0, 0)) / .01);
                        if (off < 0) out().violation("grids:aligned", "Numerov starts inside the Whittaker grid", c);
                        else for (int i = 0; i < a.rows() && i + off < w.rows(); ++i) {
                            if (a(i, 0) < std::max(5., std::sqrt(std::max(0., 1.2 * (L.n * L.n - L.n * std::sqrt((double)L.n * L.n - L.l * L.l)))))) continue;
                            double u = std::sqrt(a(i, 0)) * a(i, 1);
                            err = std::max(err, std::abs(u - w(i + off, 1)));
                            mx = std::max(mx, std::abs(u));
                        }
                        judge("methods:wavefunction", err / mx, .03, c);
                    }
                    if (L.sp == "H") {
                        double err = 0, mx = 0, sg = (L.n - L.l) % 2 == 0 ? -1 : 1;
                        double lo = (L.n - L.l - 1) % 2 ? -1 : 1;
                        for (int i = 0; i < w.rows(); i += 7) {
                            double h = sg * lo * hyd(L.n, L.l, w(i, 0) * w(i, 0));
                            err = std::max(err, std::abs(h - w(i, 1)));
                            mx = std::max(mx, std::abs(h));
                        }
                        judge("whittaker:hydrogen", err / mx, 1e-6, c);
                        err = mx = 0;
                        if (L.n > L.l + 5)
                        for (int i = 0; ok && i < a.rows(); i += 7) {
                            double h = sg * lo * hyd(L.n, L.l, a(i, 0) * a(i, 0));
                            err = std::max(err, std::abs(h - std::sqrt(a(i, 0)) * a(i, 1)));
                            mx = std::max(mx, std::abs(h));
                        }
                        if (mx > 0) judge("numerov:hydrogen", err / mx, .012, c);
                    }
                }
            }
            out().eval(str("level ", c));
        });
    }
    long agree = 0, hyds = 0;
    for (long it = 0; it < NP; ++it) {
        std::string s = r.pick(all);
        int g = ground.count(s) ? ground[s] : 1;
        bool ryd = r.b(.7);
        Level A = ryd ? pick_level(s, 25, r.b(.2) ? 160 : 80, 6) : pick_level(s, g, 60, 20), B = A;
        if (r.b(.8)) {
            B = ryd ? pick_level(s, std::max(25, A.n - 6), A.n + 6, 6) : pick_level(s, g, 60, 20);
            if (s == "H" && r.b(.5)) { B.l = std::min(B.n - 1, A.l + 1); B.j = B.l + .5; }
        }
        int p = (int)r.i(0, 4);
        std::string c = str(A.s(), " | ", B.s(), " power ", p);
        out().casebegin(c);
        guarded("integral", c, [&] {
            QuantumDefect qa(A.sp, A.n, A.l, A.j, A.db), qb(B.sp, B.n, B.l, B.j, B.db);
            double f = IntegrateRadialElement<Numerov>(qa, p, qb), b = IntegrateRadialElement<Numerov>(qb, p, qa);
            double sc = std::pow(1. * std::max(A.n, B.n), 2. * p);
            judge("numerov:symmetry", std::abs(f - b) / sc, 1e-9, c);
            // same levels twice: the same number, bit by bit
            if (IntegrateRadialElement<Numerov>(qa, p, qb) != f) out().violation("numerov:repeat", "a second evaluation differs", c);
            bool wok = s == "H" || (A.l <= maxl[s] && B.l <= maxl[s]);
            double wf = 0;
            if (wok) {
                wf = IntegrateRadialElement<Whittaker>(qa, p, qb);
                double wb = IntegrateRadialElement<Whittaker>(qb, p, qa);
                judge("whittaker:symmetry", std::abs(wf - wb) / sc, 1e-9, c);
                if (!std::isfinite(wf)) out().violation("whittaker:integral", "not finite", c);
                if (qa.nstar > 20 && qb.nstar > 20) {
                    judge(str("methods:integral"), std::abs(f - wf) / sc, .05, c);
                    ++agree;
                }
            }
            if (s == "H") {
                double e = hydint(A.n, A.l, p, B.n, B.l);
                // library sign: outermost lobe has sign (-1)^(n-l-1) * (-1)^(n-l-1) ... both outermost lobes equal
                double sg = ((A.n - A.l - 1) + (B.n - B.l - 1)) % 2 ? -1 : 1;
                double sl = ((A.n - A.l) + (B.n - B.l)) % 2 ? -1 : 1;
                judge("hydrogen:whittaker", std::abs(wf - sg * sl * e) / sc, A.n > 10 && B.n > 10 ? 1e-3 : .06, c);
                if (A.n > 10 && B.n > 10) judge("hydrogen:numerov", std::abs(f - sg * sl * e) / sc, .008, c);
                ++hyds;
            }
            if (A.n == B.n && A.l == B.l && A.j == B.j) {
                double ns = qa.nstar, ex = p == 0 ? 1 : p == 1 ? .5 * (3 * ns * ns - A.l * (A.l + 1)) : p == 2 ? ns * ns / 2 * (5 * ns * ns + 1 - 3 * A.l * (A.l + 1)) : NAN;
                if (ns > 20 && !std::isnan(ex)) judge("diagonal", std::abs(f - ex) / sc, .04, c);
            }
            out().eval(str("integral ", c));
        });
    }
    // nearly circular and other non-penetrating levels: closed forms of the mean radii
    for (long it = 0; it < NP; ++it) {
        std::string s = r.pick(all);
        int n0 = (int)r.i(8, 80), l0 = r.b(.6) ? std::max(5, n0 - (int)r.i(1, 5)) : (int)r.i(5, n0 - 1);
        Level L;
        L.sp = s; L.n = n0; L.l = l0; L.db = s == "H" ? hdb : "";
        L.j = s == "Sr1" ? l0 : s == "Sr3" ? l0 + r.i(-1, 1) : l0 + (r.b(.5) ? .5 : -.5);
        std::string c = L.s();
        out().casebegin(c);
        guarded("circular", c, [&] {
            QuantumDefect q(L.sp, L.n, L.l, L.j, L.db);
            double ns = q.nstar, ex = .5 * (3 * ns * ns - L.l * (L.l + 1.)), ex2 = ns * ns / 2 * (5 * ns * ns + 1 - 3. * L.l * (L.l + 1.));
            judge("circular:r", std::abs(IntegrateRadialElement<Numerov>(q, 1, q) / ex - 1), .005, c);
            judge("circular:r2", std::abs(IntegrateRadialElement<Numerov>(q, 2, q) / ex2 - 1), .01, c);
            out().eval(str("circular ", c));
        });
    }
    for (long it = 0; it < NF; ++it) {
        // the search that aligns two grids
        double x0 = std::floor(r.u(1, 60));
        int N = (int)r.i(1, 4000);
        Eigen::VectorXd x(N);
        for (int i = 0; i < N; ++i) x(i) = x0 + i * .01;
        int k = r.b(.2) ? 0 : r.b(.2) ? N - 1 : (int)r.i(0, N - 1);
        double x1 = std::floor(r.u(1, x0));
        double d = r.b(.5) ? x(k) : x1 + (int)std::lround((x0 - x1) / .01 + k) * .01;
        std::string c = str("x0=", x0, " N=", N, " k=", k, " d=", d);
        guarded("findidx", c, [&] {
            int f = findidx(x, d);
            if (f != k) out().violation("findidx", str("found ", f, " instead of ", k), c);
            out().eval(str("find ", c));
        });
        guarded("findidx-missing", c, [&] {
            // an element that is not there must be refused or be the nearest within rounding
            double e = d + .005;
            try {
                int f = findidx(x, e);
                if (std::abs(x(f) - e) > 1e-12) out().violation("findidx:missing", str("found ", f), c);
            } catch (std::runtime_error const &) {}
        });
    }
    for (auto &w : worst) out().count("worst_1e9." + w.first, (long)std::min(1e15, w.second * 1e9));
    out().count("levels_above_n90", high);
    out().count("integrals_compared_between_methods", agree);
    out().count("hydrogen_integrals", hyds);
    VH_MAIN_END();
}
