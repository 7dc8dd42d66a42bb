// C12: rotation matrix elements against the matrix exponential of the spin operators.
#include "WignerD.hpp"
#include "vh.hpp"
#include <Eigen/Dense>
#include <map>

using namespace vh;
using M = Eigen::MatrixXcd;
using C = std::complex<double>;

// J_y for spin j, basis m = -j..j, and its spectral decomposition
struct Spin {
    Eigen::SelfAdjointEigenSolver<M> es;
    int dim;
    explicit Spin(int twoj) : dim(twoj + 1) {
        double j = twoj / 2.;
        M jy = M::Zero(dim, dim);
        for (int k = 0; k + 1 < dim; ++k) {
            double m = -j + k, s = .5 * std::sqrt(j * (j + 1) - m * (m + 1));
            jy(k + 1, k) = C(0, -1) * s; // J_+/(2i)
            jy(k, k + 1) = C(0, 1) * s;
        }
        es.compute(jy);
    }
    M d(double beta) const {
        Eigen::VectorXcd e = (C(0, -beta) * es.eigenvalues().cast<C>().array()).exp();
        return es.eigenvectors() * e.asDiagonal() * es.eigenvectors().adjoint();
    }
};

int main() {
    Rng r(8);
    std::map<int, Spin> spins;
    int const maxtwoj = 41;
    for (int t = 0; t <= maxtwoj; ++t) spins.emplace(t, Spin(t));
    long elements = 0;
    WignerD shared;
    auto tol = [](int twoj) { (void)twoj; return 2e-12; };
    double worst[64] = {};
    for (long it = 0; it < n(450, 20000); ++it) {
        int t = it <= maxtwoj ? (int)it : (int)(r.b(.7) ? r.i(0, 17) : r.i(0, maxtwoj));
        double j = t / 2., beta;
        switch (r.i(0, 6)) {
        case 0: beta = r.pick(std::vector<double>{0., M_PI, M_PI / 2, -M_PI / 2, M_PI / 4, 2 * M_PI, -M_PI, 3 * M_PI / 2, 1e-9, M_PI / 2 + 1e-16, std::nextafter(M_PI / 2, 2), std::nextafter(M_PI / 2, 0)}); break;
        default: beta = r.u(-7, 7);
        }
        double al = r.b(.2) ? 0 : r.u(-7, 7), ga = r.b(.2) ? 0 : r.u(-7, 7);
        M ref = spins.at(t).d(beta);
        M d(t + 1, t + 1), D(t + 1, t + 1);
        WignerD fresh;
        std::string c = str("j=", j, " alpha=", al, " beta=", beta, " gamma=", ga);
        std::vector<int> order((t + 1) * (t + 1));
        for (size_t k = 0; k < order.size(); ++k) order[k] = (int)k;
        std::shuffle(order.begin(), order.end(), r.g);
        for (int k : order) {
            int a = k / (t + 1), b = k % (t + 1);
            double m = -j + a, mp = -j + b;
            double x = shared((float)j, (float)m, (float)mp, beta), y = fresh((float)j, (float)m, (float)mp, beta);
            if (std::memcmp(&x, &y, sizeof x) != 0) out().violation("history-dependent", str("m=", m, " mp=", mp, ": ", x, " vs fresh ", y), c);
            d(a, b) = x;
            D(a, b) = shared((float)j, (float)m, (float)mp, al, beta, ga);
            double err = std::abs(x - ref(a, b));
            worst[t] = std::max(worst[t], err);
            if (!(err <= tol(t))) out().violation("small-d", str("m=", m, " mp=", mp, ": ", x, " expected ", ref(a, b).real()), c);
            C e = std::exp(C(0, -m * al)) * ref(a, b) * std::exp(C(0, -mp * ga));
            if (!(std::abs(D(a, b) - e) <= tol(t) * 10)) out().violation("large-D", str("m=", m, " mp=", mp, ": ", D(a, b), " expected ", e), c);
            ++elements;
        }
        double u = (d * d.adjoint() - M::Identity(t + 1, t + 1)).norm();
        if (!(u <= tol(t) * 100 * (t + 1))) out().violation("unitary-d", str("norm of d d+ - 1: ", u), c);
        u = (D * D.adjoint() - M::Identity(t + 1, t + 1)).norm();
        if (!(u <= tol(t) * 100 * (t + 1))) out().violation("unitary-D", str("norm of D D+ - 1: ", u), c);
        // composition about the y axis, the inverse rotation
        double b2 = r.u(-3, 3);
        if (t <= 20) {
            M s(t + 1, t + 1), inv(t + 1, t + 1), two(t + 1, t + 1);
            for (int a = 0; a <= t; ++a)
                for (int b = 0; b <= t; ++b) {
                    two(a, b) = shared((float)j, (float)(-j + a), (float)(-j + b), b2);
                    s(a, b) = shared((float)j, (float)(-j + a), (float)(-j + b), beta + b2);
                    inv(a, b) = shared((float)j, (float)(-j + a), (float)(-j + b), -ga, -beta, -al);
                }
            if (!((d * two - s).norm() <= tol(t) * 100 * (t + 1))) out().violation("composition", str("beta2=", b2, " deviation ", (d * two - s).norm()), c);
            if (!((D * inv - M::Identity(t + 1, t + 1)).norm() <= tol(t) * 100 * (t + 1))) out().violation("inverse", str((D * inv - M::Identity(t + 1, t + 1)).norm()), c);
        }
        out().eval(c, beta != 0);
    }
    for (int t = 0; t <= maxtwoj; t += 8) out().count(str("worst_error_1e-18_twoj", t), (long)(worst[t] * 1e18));
    out().count("elements", elements);
    VH_MAIN_END();
}
