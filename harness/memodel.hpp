// Independent matrix elements: uncoupled spin-orbit basis, explicit ladder operators, radial integral of the chosen method.
#ifndef MEMODEL_HPP
#define MEMODEL_HPP
#include "vh.hpp"
#include "Constants.hpp"
#include "QuantumDefect.hpp"
#include "State.hpp"
#include "Wavefunction.hpp"
#include <map>
#include <tuple>

namespace mem {
inline double lf(double n) { return std::lgamma(n + 1); }
// Clebsch-Gordan coefficient <j1 m1 j2 m2 | J M> by Racah's sum
inline double cg(double j1, double m1, double j2, double m2, double J, double M) {
    if (std::abs(m1 + m2 - M) > 1e-6 || J < std::abs(j1 - j2) - 1e-6 || J > j1 + j2 + 1e-6) return 0;
    if (std::abs(m1) > j1 + 1e-6 || std::abs(m2) > j2 + 1e-6 || std::abs(M) > J + 1e-6) return 0;
    double pre = .5 * (std::log(2 * J + 1) + lf(J + j1 - j2) + lf(J - j1 + j2) + lf(j1 + j2 - J) - lf(j1 + j2 + J + 1) + lf(J + M) + lf(J - M) +
                       lf(j1 - m1) + lf(j1 + m1) + lf(j2 - m2) + lf(j2 + m2));
    double s = 0;
    for (int k = 0; k < 200; ++k) {
        double a[] = {j1 + j2 - J - k, j1 - m1 - k, j2 + m2 - k, J - j2 + m1 + k, J - j1 - m2 + k};
        bool ok = true;
        for (double x : a) ok = ok && x > -.5;
        if (!ok) continue;
        double t = pre - lf(k);
        for (double x : a) t -= lf(std::round(x));
        s += (k % 2 ? -1 : 1) * std::exp(t);
    }
    return s;
}
// <l ml | C^k_q | l' ml'>
inline double C(int l, double ml, int k, double q, int lp, double mlp) {
    return std::sqrt((2. * lp + 1) / (2. * l + 1)) * cg(lp, mlp, k, q, l, ml) * cg(lp, 0, k, 0, l, 0);
}
inline double ladder(double j, double m, double q, double mp) { // <j m | J_q | j mp>, spherical component
    if (std::abs(m - mp - q) > 1e-6) return 0;
    if (std::abs(q) < .5) return m;
    if (q > 0) return -std::sqrt(std::max(0., j * (j + 1) - mp * (mp + 1))) / M_SQRT2;
    return std::sqrt(std::max(0., j * (j + 1) - mp * (mp - 1))) / M_SQRT2;
}
template <class F>
double coupled(StateOne const &a, StateOne const &b, F &&f) { // f(la,mla,msa,lb,mlb,msb)
    double s = a.getS(), r = 0;
    for (double x = -s; x <= s + .1; ++x)
        for (double y = -s; y <= s + .1; ++y) {
            double ma = a.getM() - x, mb = b.getM() - y;
            double c1 = cg(a.getL(), ma, s, x, a.getJ(), a.getM()), c2 = cg(b.getL(), mb, s, y, b.getJ(), b.getM());
            if (c1 != 0 && c2 != 0) r += c1 * c2 * f(ma, x, mb, y);
        }
    return r;
}
inline double angular_multipole(StateOne const &a, StateOne const &b, int k) {
    double q = a.getM() - b.getM();
    if (std::abs(q) > k + .1) return 0;
    return coupled(a, b, [&](double ma, double x, double mb, double y) { return x == y ? C(a.getL(), ma, k, q, b.getL(), mb) : 0.; });
}
inline double angular_magnetic(StateOne const &a, StateOne const &b) { // gL L_q + gS S_q
    double q = a.getM() - b.getM();
    if (std::abs(q) > 1.1 || a.getL() != b.getL()) return 0;
    double s = a.getS();
    return coupled(a, b, [&](double ma, double x, double mb, double y) {
        double r = 0;
        if (x == y) r += 1.0 * ladder(a.getL(), ma, q, mb);
        if (ma == mb) r += 2.0023192 * ladder(s, x, q, y);
        return r;
    });
}
inline std::map<std::string, double> &memo() {
    static std::map<std::string, double> m;
    return m;
}
inline double radial(int method, StateOne const &a, StateOne const &b, int k, std::string const &db = "") {
    std::string key = vh::str(db, "|", method, "|", k, "|", a.getSpecies(), ",", a.getN(), ",", a.getL(), ",", a.getJ(), "|", b.getN(), ",", b.getL(), ",", b.getJ());
    auto it = memo().find(key);
    if (it != memo().end()) return it->second;
    QuantumDefect qa(a.getSpecies(), a.getN(), a.getL(), a.getJ(), db), qb(b.getSpecies(), b.getN(), b.getL(), b.getJ(), db);
    double v = method == 0 ? IntegrateRadialElement<Numerov>(qa, k, qb) : IntegrateRadialElement<Whittaker>(qa, k, qb);
    v *= std::pow(5.2917721067e-05, k);
    return memo()[key] = v;
}
inline double e() { return 6579683.920757349 / 5.2917721067e-05 / 5142206707.0; }
inline double muB() { return .5 * 6579683.920757349 / 2350517550.0; }
inline double multipole(int method, StateOne const &a, StateOne const &b, int kr, int ka, std::string const &db = "") {
    return e() * radial(method, a, b, kr, db) * angular_multipole(a, b, ka);
}
inline double magnetic(int method, StateOne const &a, StateOne const &b, std::string const &db = "") {
    double g = angular_magnetic(a, b);
    return g == 0 ? 0 : -muB() * radial(method, a, b, 0, db) * g;
}
} // namespace mem
#endif
