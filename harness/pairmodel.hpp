// Dense model of the interaction of two atoms in a product basis of one-atom states.
#ifndef PAIRMODEL_HPP
#define PAIRMODEL_HPP
#include "sysmodel.hpp"
using sm::M;
using sm::cd;
static constexpr double INF = std::numeric_limits<double>::max();

// derivatives of 1/|r|
inline double d2(std::array<double, 3> const &r, int i, int j) {
    double n = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]);
    return 3 * r[i] * r[j] / std::pow(n, 5) - (i == j) / std::pow(n, 3);
}
inline double d3(std::array<double, 3> const &r, int i, int j, int k) {
    double n = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]);
    return -15 * r[i] * r[j] * r[k] / std::pow(n, 7) + 3 * ((i == j) * r[k] + (i == k) * r[j] + (j == k) * r[i]) / std::pow(n, 5);
}
struct Geo {
    std::array<double, 3> R{{0, 0, INF}};
    double distance = INF, surface = INF;
    bool green = false;
    unsigned order = 3;
    bool needgreen() const { return R[1] != 0 || surface != INF || (R[0] != 0 && order > 3) || green; }
    bool invalid() const { // settings that have to be refused when the Hamiltonian is built
        if (distance == INF || !needgreen()) return false;
        return !green || order >= 5 || (surface != INF && (R[1] != 0 || surface < std::abs(R[2]) / 2));
    }
    std::string s() const { return vh::str("R=(", R[0], ",", R[1], ",", R[2], ") d=", distance, " surface=", surface, " green=", green, " order=", order); }
};
inline double binom(int n, int k) {
    if (k < 0 || k > n) return 0;
    double r = 1;
    for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i;
    return r;
}
struct Pair {
    std::vector<StateTwo> st;
    std::vector<int> a, b;
    sm::One o1, o2;
    static std::vector<StateOne> uniq(std::vector<StateTwo> const &s, int w, std::vector<int> &idx) {
        std::vector<StateOne> r;
        for (auto const &x : s) {
            StateOne y = w ? x.getSecondState() : x.getFirstState();
            size_t k = 0;
            while (k < r.size() && !(r[k] == y)) ++k;
            if (k == r.size()) r.push_back(y);
            idx.push_back((int)k);
        }
        return r;
    }
    Pair(std::vector<StateTwo> const &s, int method) : st(s), o1(uniq(s, 0, a), method), o2(uniq(s, 1, b), method) {}
    void addprod(M &V, cd c, M const &A, M const &B) const {
        if (c == 0.) return;
        for (size_t i = 0; i < st.size(); ++i)
            for (size_t j = 0; j < st.size(); ++j) V(i, j) += c * A(a[i], a[j]) * B(b[i], b[j]);
    }
    M interaction(Geo const &g) {
        size_t n = st.size();
        M V = M::Zero(n, n);
        if (g.distance == INF) return V;
        double k = sm::coulomb() / mem::e() / mem::e();
        bool mirror = g.surface != INF;
        std::array<double, 3> img{{g.R[0], g.R[1], 2 * g.surface}};
        auto sg = [](int i) { return i == 2 ? 1. : -1.; };
        bool axis = g.R[0] == 0 && g.R[1] == 0 && !mirror;
        if (axis && g.order > 4) { // multipole expansion along the axis
            double z = g.R[2];
            for (unsigned o = 3; o <= g.order; ++o)
                for (int k1 = 1; k1 <= (int)o - 2; ++k1) {
                    int k2 = (int)o - 1 - k1;
                    for (int q = -std::min(k1, k2); q <= std::min(k1, k2); ++q)
                        addprod(V, k * (k2 % 2 ? -1. : 1.) * std::sqrt(binom(k1 + k2, k1 + q) * binom(k1 + k2, k2 + q)) / std::pow(std::abs(z), (double)o) * (z < 0 && (k1 + k2) % 2 ? -1. : 1.),
                                o1.op(k1, k1, q), o2.op(k2, k2, -q));
                }
            return V;
        }
        if (g.order >= 3) {
            auto x = o1.dip(), y = o2.dip();
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) addprod(V, -k * (d2(g.R, i, j) + (mirror ? d2(img, i, j) * sg(j) : 0)), x[i], y[j]);
        }
        if (g.order >= 4) {
            auto x = o1.dip(), y = o2.dip();
            std::array<std::array<M, 3>, 3> p, q;
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) { p[i][j] = o1.nn(i, j); q[i][j] = o2.nn(i, j); }
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j)
                    for (int l = 0; l < 3; ++l) {
                        double v = d3(g.R, i, j, l), m = mirror ? d3(img, i, j, l) : 0;
                        addprod(V, k / 2 * (-v + m * sg(j) * sg(l)), x[i], q[j][l]);
                        addprod(V, k / 2 * (v + m * sg(l)), p[i][j], y[l]);
                    }
        }
        return V;
    }
    M single(sm::Fields const &f, int atom) {
        M h = sm::hamiltonian(atom ? o2 : o1, f);
        size_t n = st.size();
        M H = M::Zero(n, n);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j)
                if (atom ? a[i] == a[j] : b[i] == b[j]) H(i, j) = atom ? h(b[i], b[j]) : h(a[i], a[j]);
        return H;
    }
};
#endif
