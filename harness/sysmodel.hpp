// Dense models of the one-atom and pair Hamiltonians, built from independent matrix elements (memodel.hpp).
#ifndef SYSMODEL_HPP
#define SYSMODEL_HPP
#include "memodel.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <array>
#include <map>

namespace sm {
using cd = std::complex<double>;
using M = Eigen::MatrixXcd;
inline cd I() { return {0, 1}; }

// angular parts are remembered per pair of angular states
inline double ang(StateOne const &a, StateOne const &b, int k) { // k = -1: magnetic
    static std::map<std::array<int, 9>, double> memo;
    std::array<int, 9> key{k, (int)(2 * a.getS()), a.getL(), (int)(2 * a.getJ()), (int)std::lround(2 * a.getM()), b.getL(), (int)(2 * b.getJ()), (int)std::lround(2 * b.getM()), 0};
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    return memo[key] = k < 0 ? mem::angular_magnetic(a, b) : mem::angular_multipole(a, b, k);
}
// radial parts and level energies per pair of levels
inline int levelid(StateOne const &s) {
    static std::map<std::string, int> sp;
    auto it = sp.find(s.getSpecies());
    int k = it != sp.end() ? it->second : sp.emplace(s.getSpecies(), (int)sp.size()).first->second;
    return ((k * 200 + s.getN()) * 64 + s.getL()) * 64 + (int)std::lround(2 * s.getJ());
}
inline double radial(int method, StateOne const &a, StateOne const &b, int k) {
    static std::map<std::array<int, 3>, double> memo;
    std::array<int, 3> key{method * 100 + k, levelid(a), levelid(b)};
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    return memo[key] = mem::radial(method, a, b, k);
}
inline bool artificial(StateOne const &s) { return s.isArtificial(); }
inline double energy(StateOne const &s) {
    static std::map<int, double> memo;
    int key = levelid(s);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    QuantumDefect q(s.getSpecies(), s.getN(), s.getL(), s.getJ());
    return memo[key] = q.energy;
}
// matrix of the q component of the operator f(a,b) between states
template <class F>
M component(std::vector<StateOne> const &st, int q, F &&f) {
    M m = M::Zero(st.size(), st.size());
    for (size_t i = 0; i < st.size(); ++i)
        for (size_t j = 0; j < st.size(); ++j) {
            if (artificial(st[i]) || artificial(st[j])) continue;
            if (std::lround(st[i].getM() - st[j].getM()) != q) continue;
            m(i, j) = f(st[i], st[j]);
        }
    return m;
}
// <a| e r^kr C^ka_q |b> in GHz/(V/cm) um^(kr-1)
inline M multipole(std::vector<StateOne> const &st, int method, int kr, int ka, int q) {
    return component(st, q, [&](StateOne const &a, StateOne const &b) {
        double g = ang(a, b, ka);
        return g == 0 ? 0. : mem::e() * radial(method, a, b, kr) * g;
    });
}
inline M magnetic(std::vector<StateOne> const &st, int method, int q) {
    return component(st, q, [&](StateOne const &a, StateOne const &b) {
        double g = ang(a, b, -1);
        return g == 0 ? 0. : -mem::muB() * radial(method, a, b, 0) * g;
    });
}
// Cartesian components from spherical ones
inline std::array<M, 3> cartesian(M const &p, M const &z, M const &m) {
    return {(m - p) / std::sqrt(2.), I() * (m + p) / std::sqrt(2.), z};
}

// Operators of one atom, each evaluated when first needed.
struct One {
    std::vector<StateOne> st;
    int method;
    std::map<std::array<int, 3>, M> memo;
    std::map<int, M> mm;
    One(std::vector<StateOne> s, int method = 0) : st(std::move(s)), method(method) {}
    M const &op(int kr, int ka, int q) {
        auto k = std::array<int, 3>{kr, ka, q};
        auto it = memo.find(k);
        return it != memo.end() ? it->second : memo[k] = multipole(st, method, kr, ka, q);
    }
    M const &mag(int q) {
        auto it = mm.find(q);
        return it != mm.end() ? it->second : mm[q] = magnetic(st, method, q);
    }
    std::array<M, 3> dip() { return cartesian(op(1, 1, 1), op(1, 1, 0), op(1, 1, -1)); }
    std::array<M, 3> magv() { return cartesian(mag(1), mag(0), mag(-1)); }
    // e r^2 n_i n_j (n the direction)
    M nn(int i, int j) {
        M r2 = op(2, 0, 0), z = op(2, 2, 0), p1 = op(2, 2, 1), m1 = op(2, 2, -1), p2 = op(2, 2, 2), m2 = op(2, 2, -2);
        if (i > j) std::swap(i, j);
        M zz = (2. * z + r2) / 3.;
        if (i == 2 && j == 2) return zz;
        if (i == 0 && j == 2) return (m1 - p1) / std::sqrt(6.);
        if (i == 1 && j == 2) return I() * (m1 + p1) / std::sqrt(6.);
        if (i == 0 && j == 1) return -I() * (p2 - m2) / std::sqrt(6.);
        M d = (p2 + m2) * std::sqrt(2. / 3.);
        return i == 0 ? M((r2 - zz + d) / 2.) : M((r2 - zz - d) / 2.);
    }
    M levels() {
        M h = M::Zero(st.size(), st.size());
        for (size_t i = 0; i < st.size(); ++i)
            if (!artificial(st[i])) h(i, i) = energy(st[i]);
        return h;
    }
};
struct Fields {
    std::array<double, 3> E{{0, 0, 0}}, B{{0, 0, 0}};
    bool dia = true;
    int charge = 0;
    unsigned order = 0;
    double distance = std::numeric_limits<double>::max();
    std::string s() const {
        return vh::str("E=(", E[0], ",", E[1], ",", E[2], ") B=(", B[0], ",", B[1], ",", B[2], ") dia=", dia, " charge=", charge, " order=", order, " distance=", distance);
    }
};
// e^2/(8 m) in GHz per (um^2 G^2), with e r^2 in units of op(2,..): divide by e
inline double dia_constant() {
    double e = 1.602176634e-19, me = 9.1093837015e-31, h = 6.62607015e-34;
    return e * e / (8 * me) * 1e-12 * 1e-8 / h / 1e9;
}
inline double coulomb() { // e^2/(4 pi eps0) in GHz um
    double e = 1.602176634e-19, k = 8.9875517923e9, h = 6.62607015e-34;
    return k * e * e / h * 1e6 / 1e9;
}
inline M hamiltonian(One &o, Fields const &f, double *scale = nullptr) {
    M V = M::Zero(o.st.size(), o.st.size());
    if (f.E != std::array<double, 3>{{0, 0, 0}}) {
        auto d = o.dip();
        for (int i = 0; i < 3; ++i) V -= f.E[i] * d[i];
    }
    if (f.B != std::array<double, 3>{{0, 0, 0}}) {
        auto d = o.magv();
        for (int i = 0; i < 3; ++i) V -= f.B[i] * d[i];
        if (f.dia) {
            double b2 = f.B[0] * f.B[0] + f.B[1] * f.B[1] + f.B[2] * f.B[2], c = dia_constant() / mem::e();
            V += c * b2 * o.op(2, 0, 0);
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j)
                    if (f.B[i] * f.B[j] != 0) V -= c * f.B[i] * f.B[j] * o.nn(i, j);
        }
    }
    if (f.charge != 0 && f.distance != std::numeric_limits<double>::max())
        for (unsigned k = 1; k <= f.order; ++k) V -= f.charge * coulomb() / mem::e() / std::pow(f.distance, k + 1) * o.op((int)k, (int)k, 0);
    if (scale) *scale = V.size() ? V.cwiseAbs().maxCoeff() : 0;
    return o.levels() + V;
}
template <class S>
M dense(Eigen::SparseMatrix<S> const &m) {
    M r = M::Zero(m.rows(), m.cols());
    for (int k = 0; k < m.outerSize(); ++k)
        for (typename Eigen::SparseMatrix<S>::InnerIterator it(m, k); it; ++it) r(it.row(), it.col()) += it.value();
    return r;
}
inline double maxabs(M const &m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0; }
inline bool finite(M const &m) { return m.allFinite(); }
inline std::vector<double> eigenvalues(M const &m) {
    if (m.rows() == 0) return {};
    Eigen::SelfAdjointEigenSolver<M> s(m, Eigen::EigenvaluesOnly);
    return std::vector<double>(s.eigenvalues().data(), s.eigenvalues().data() + m.rows());
}
} // namespace sm
#endif
