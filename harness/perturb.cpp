// C19: perturbative interaction coefficients against brute-force sums over all intermediate pair states, built from the
// Cartesian dipole operators of an independent model.
#include "pairmodel.hpp"
#include "MatrixElementCache.hpp"
#include "PerturbativeInteraction.hpp"
using namespace vh;

static long sums = 0, terms = 0, matrices = 0, c3s = 0, skipped = 0;
static double spin(std::string const &s) { return s == "Sr1" ? 0 : s == "Sr3" ? 1 : .5; }
// one-atom states reached from s by the dipole operator, with n in [lo, hi]
static std::vector<StateOne> reach(StateOne const &s, int lo, int hi) {
    std::vector<StateOne> r;
    double S = spin(s.getSpecies());
    for (int n = std::max(lo, 1); n <= hi; ++n)
        for (int l : {s.getL() - 1, s.getL() + 1})
            if (l >= 0 && l < n)
                for (double j = std::abs(l - S); j <= l + S; ++j)
                    if (std::abs(j - s.getJ()) <= 1)
                        for (double m = -j; m <= j; ++m)
                            if (std::abs(m - s.getM()) <= 1) r.emplace_back(s.getSpecies(), n, l, (float)j, (float)m);
    return r;
}
static cd dip(int method, StateOne const &a, StateOne const &b, int i) { // Cartesian component
    if (a.getSpecies() != b.getSpecies()) return 0;
    int q = (int)std::lround(a.getM() - b.getM());
    if (std::abs(q) > 1) return 0;
    double g = sm::ang(a, b, 1);
    if (g == 0) return 0;
    double v = mem::e() * sm::radial(method, a, b, 1) * g;
    if (i == 2) return q == 0 ? v : 0;
    if (q == 0) return 0;
    return i == 0 ? cd(q == 1 ? -v : v) / std::sqrt(2.) : cd(0, v) / std::sqrt(2.);
}
struct Vec {
    cd c[3];
    Vec(int me, StateOne const &a, StateOne const &b) : c{dip(me, a, b, 0), dip(me, a, b, 1), dip(me, a, b, 2)} {}
};
static cd V(Vec const &a, Vec const &b, double th) { // at a distance of 1 um
    double k = sm::coulomb() / mem::e() / mem::e(), n[3]{std::sin(th), 0, std::cos(th)};
    cd d = 0, x = 0, y = 0;
    for (int i = 0; i < 3; ++i) { d += a.c[i] * b.c[i]; x += a.c[i] * n[i]; y += b.c[i] * n[i]; }
    return k * (d - 3. * x * y);
}
static double en(StateTwo const &s) { return sm::energy(s.getFirstState()) + sm::energy(s.getSecondState()); }

static bool second_order(int me, std::vector<StateTwo> const &set, StateTwo const &a, StateTwo const &b, int dn, double th, double &val, double &scale, double &gap) {
    auto A = a.getFirstState(), B = b.getFirstState(), C = a.getSecondState(), D = b.getSecondState();
    auto r0 = reach(B, std::min(A.getN(), B.getN()) - dn, std::max(A.getN(), B.getN()) + dn), r1 = reach(D, std::min(C.getN(), D.getN()) - dn, std::max(C.getN(), D.getN()) + dn);
    std::vector<Vec> f0, b0, f1, b1;
    for (auto const &k : r0) { b0.emplace_back(me, A, k); f0.emplace_back(me, k, B); }
    for (auto const &k : r1) { b1.emplace_back(me, C, k); f1.emplace_back(me, k, D); }
    val = scale = 0;
    gap = 1e300;
    for (size_t i = 0; i < r0.size(); ++i)
        for (size_t j = 0; j < r1.size(); ++j) {
            StateTwo k(r0[i], r1[j]);
            if (std::find(set.begin(), set.end(), k) != set.end()) continue;
            cd w = V(b0[i], b1[j], th) * V(f0[i], f1[j], th);
            double ea = en(a) - en(k), eb = en(b) - en(k);
            gap = std::min({gap, std::abs(ea), std::abs(eb)}); // also if the interaction vanishes only up to rounding
            double t = w.real() * .5 * (1 / ea + 1 / eb);
            val += t;
            scale += std::abs(t);
            ++terms;
        }
    return true;
}
static bool lown = false; // levels of low n, for which only the Numerov method is meant
static StateOne pick(Rng &r, std::string const &sp, int n0) {
    double S = spin(sp);
    int l, n;
    if (lown && r.b(.2)) { l = 4; n = (int)r.i(5, 6); }
    else { l = (int)r.i(0, 3); n = n0 + (int)r.i(0, 1); }
    std::vector<double> js;
    for (double j = std::abs(l - S); j <= l + S; ++j) js.push_back(j);
    double j = r.pick(js);
    return StateOne(sp, n, l, (float)j, (float)(-j + (double)r.i(0, std::lround(2 * j))));
}
static std::string d(StateTwo const &s) { return str(s.getSpecies(0), " ", s.getN(0), " ", s.getL(0), " ", s.getJ(0), " ", s.getM(0), ";", s.getSpecies(1), " ", s.getN(1), " ", s.getL(1), " ", s.getJ(1), " ", s.getM(1)); }
int main(int argc, char **argv) {
    long part = argc > 1 ? std::atol(argv[1]) : 0;
    Rng r(19 + 100 * part);
    MatrixElementCache num, whi;
    whi.setMethod(WHITTAKER);
    int n0 = 18 + (int)(seed() % 15);
    for (long it = 0; it < n(argc > 2 ? std::atol(argv[2]) : 500, 20000); ++it) {
        int me = r.b(.3) ? 1 : 0;
        lown = !me;
        MatrixElementCache &cache = me ? whi : num;
        double th = r.b(.4) ? 0 : r.b(.3) ? r.pick(std::vector<double>{M_PI / 2, M_PI, M_PI / 4, -M_PI / 2}) : r.u(-3.2, 3.2);
        PerturbativeInteraction p = th == 0 && r.b() ? PerturbativeInteraction(cache) : PerturbativeInteraction(th, cache);
        auto sps = std::vector<std::string>{"Rb", "Sr1", "Sr3", "Cs", "Sr3"};
        std::string s0 = r.pick(sps), s1 = r.b(.6) ? s0 : r.pick(sps);
        StateTwo a(pick(r, s0, n0), pick(r, s1, n0));
        int dn = (int)r.i(0, 2);
        std::string c = str(d(a), " dn ", dn, " angle ", th, me ? " whittaker" : "");
        out().casebegin(c);
        guarded("sum", c, [&] {
            double want, sc, gap;
            second_order(me, {}, a, a, dn, th, want, sc, gap);
            if (gap < 1e-2) { ++skipped; return; }
            double got = p.getC6(a, dn), one = p.getC6(std::vector<StateTwo>{a}, dn)(0, 0), tol = 2e-5 * sc + 1e-12;
            ++sums;
            std::string k = str(":spin", spin(s0) == 1 || spin(s1) == 1 ? "1" : "", th == 0 ? "" : ":angle");
            if (!(std::abs(got - want) <= tol)) out().violation("c6" + k, str(got, ", sum ", want), c);
            if (!(std::abs(one - got) <= 1e-9 * sc + 1e-12)) out().violation("c6:diagonal" + k, str("vector ", one, ", scalar ", got), c);
            out().eval(c, sc > 0);
        });
        // sets of states
        std::vector<StateTwo> set{a};
        int kind = (int)r.i(0, 3);
        long len = r.i(2, 7);
        auto known = [&](StateTwo const &x) { return std::find(set.begin(), set.end(), x) != set.end(); };
        for (long t = 0; t < 60 && (long)set.size() < len; ++t) {
            StateOne u = a.getFirstState(), v = a.getSecondState();
            if (kind == 0) { // other projections
                u = StateOne(s0, u.getN(), u.getL(), u.getJ(), -u.getJ() + (float)r.i(0, std::lround(2 * u.getJ())));
                v = StateOne(s1, v.getN(), v.getL(), v.getJ(), -v.getJ() + (float)r.i(0, std::lround(2 * v.getJ())));
            } else if (kind == 1) { // exchanged, neighbours
                StateTwo b = r.pick(set);
                u = b.getFirstState(), v = b.getSecondState();
                auto x = reach(u, u.getN() - 1, u.getN() + 1), y = reach(v, v.getN() - 1, v.getN() + 1);
                if (x.empty() || y.empty()) continue;
                u = r.pick(x), v = r.pick(y);
                if (s0 == s1 && r.b(.3)) std::swap(u, v);
            } else if (kind == 2) {
                u = pick(r, s0, n0), v = pick(r, s1, n0);
            } else { // with other species among them
                std::string x = r.b() ? s0 : r.pick(sps), y = r.b() ? s1 : r.pick(sps);
                u = pick(r, x, n0), v = pick(r, y, n0);
            }
            StateTwo b(u, v);
            if (!known(b)) set.push_back(b);
        }
        c = "";
        for (auto const &x : set) c += d(x) + " | ";
        c += str(" dn ", dn, " angle ", th, me ? " whittaker" : "");
        out().casebegin(c);
        guarded("matrix", c, [&] {
            auto c3 = p.getC3(set), e = p.getEnergy(set);
            long m = (long)set.size();
            if (c3.rows() != m || c3.cols() != m) { out().violation("c3:shape", "", c); return; }
            for (long i = 0; i < m; ++i)
                for (long j = 0; j < m; ++j) {
                    cd want = V(Vec(me, set[(size_t)i].getFirstState(), set[(size_t)j].getFirstState()), Vec(me, set[(size_t)i].getSecondState(), set[(size_t)j].getSecondState()), th);
                    ++c3s;
                    if (!(std::abs(c3(i, j) - want) <= 1e-5 * std::abs(want) + 1e-6)) out().violation("c3", str("entry ", i, ",", j, " is ", c3(i, j), ", interaction ", want.real()), c);
                    double we = i == j ? en(set[(size_t)i]) : 0;
                    if (!(std::abs(e(i, j) - we) <= 1e-9 * std::abs(we))) out().violation("energy", str(e(i, j), " expected ", we), c);
                }
            if (r.b(.6)) {
                auto c6 = p.getC6(set, dn);
                ++matrices;
                if (c6.rows() != m || c6.cols() != m) { out().violation("c6m:shape", "", c); return; }
                for (long i = 0; i < m; ++i)
                    for (long j = i; j < m; ++j) {
                        double want = 0, sc = 0, gap = 1e300;
                        if (set[(size_t)i].getSpecies() == set[(size_t)j].getSpecies()) second_order(me, set, set[(size_t)i], set[(size_t)j], dn, th, want, sc, gap);
                        if (gap < 1e-2) { ++skipped; continue; }
                        if (!(std::abs(c6(i, j) - want) <= 2e-5 * sc + 1e-10)) out().violation(str("c6m", i == j ? ":diagonal" : ":offdiagonal", spin(s0) == 1 || spin(s1) == 1 ? ":spin1" : ""), str("entry ", i, ",", j, " is ", c6(i, j), ", sum ", want), c);
                        if (c6(i, j) != c6(j, i)) out().violation("c6m:symmetric", "", c);
                    }
            }
            out().eval(c);
        });
    }
    out().count("second_order_sums", sums);
    out().count("terms", terms);
    out().count("dispersion_matrices", matrices);
    out().count("dipole_entries", c3s);
    out().count("skipped_resonances", skipped);
    VH_MAIN_END();
}
