// C07: operations on Hamiltonian matrices against dense linear algebra, along operation histories.
#include "Hamiltonianmatrix.hpp"
#include "vh.hpp"
#include <Eigen/Dense>
#include <set>

using namespace vh;
template <class S>
using Mat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <class S>
using Sp = Eigen::SparseMatrix<S>;
template <class S>
using H = Hamiltonianmatrix<S>;

static long counts[16];
static double worstdiag = 0;

template <class S>
S rnd(Rng &r);
template <>
double rnd<double>(Rng &r) { return r.normal(); }
template <>
std::complex<double> rnd<std::complex<double>>(Rng &r) {
    double a = r.normal();
    return {a, r.normal()};
}
template <class S>
Sp<S> sparse(Mat<S> const &m) {
    Sp<S> s(m.rows(), m.cols());
    std::vector<Eigen::Triplet<S>> t;
    for (long k = 0; k < m.cols(); ++k)
        for (long i = 0; i < m.rows(); ++i)
            if (m(i, k) != S(0)) t.emplace_back((int)i, (int)k, m(i, k));
    s.setFromTriplets(t.begin(), t.end());
    return s;
}

// Hermitian matrices with structure: dense, sparse, blocks, repeated eigenvalues, diagonal, widely different scales
template <class S>
Mat<S> hermitian(Rng &r, long d, std::string &c) {
    Mat<S> m = Mat<S>::Zero(d, d);
    int kind = (int)r.i(0, 6);
    c += str(" H", kind, "x", d);
    double p = kind == 1 ? .15 : 1;
    long block = kind == 2 ? r.i(1, 4) : d;
    if (kind == 3 && d > 0) { // few distinct eigenvalues
        Mat<S> x(d, d);
        for (long i = 0; i < d; ++i)
            for (long k = 0; k < d; ++k) x(i, k) = rnd<S>(r);
        Mat<S> q = Eigen::HouseholderQR<Mat<S>>(x).householderQ();
        Eigen::VectorXd e(d);
        for (long i = 0; i < d; ++i) e(i) = (double)r.i(-1, 2);
        return q * e.template cast<S>().asDiagonal() * q.adjoint();
    }
    for (long i = 0; i < d; ++i)
        for (long k = 0; k < i; ++k)
            if (kind != 4 && i / std::max(block, 1L) == k / std::max(block, 1L) && r.b(p)) {
                m(i, k) = rnd<S>(r) * (kind == 5 ? 1e-3 : 1.);
                m(k, i) = Eigen::numext::conj(m(i, k));
            }
    for (long i = 0; i < d; ++i) m(i, i) = r.b(.1) ? S(0) : S(r.normal() * (kind == 6 ? 100 : 1));
    return m;
}
// rows x cols with orthonormal columns, possibly sparse, possibly only part of the identity
template <class S>
Mat<S> orthonormal(Rng &r, long rows, long cols, std::string &c) {
    int kind = (int)r.i(0, 2);
    c += str(" B", kind, "x", rows);
    Mat<S> b = Mat<S>::Zero(rows, cols);
    if (kind == 0) {
        std::vector<long> p(rows);
        for (long k = 0; k < rows; ++k) p[k] = k;
        std::shuffle(p.begin(), p.end(), r.g);
        for (long k = 0; k < cols; ++k) b(p[k], k) = 1;
        return b;
    }
    Mat<S> x = Mat<S>::Zero(rows, rows);
    long block = kind == 1 ? 3 : rows;
    for (long i = 0; i < rows; ++i)
        for (long k = 0; k < rows; ++k)
            if (i / block == k / block) x(i, k) = rnd<S>(r);
    Mat<S> q = Eigen::HouseholderQR<Mat<S>>(x).householderQ();
    for (long i = 0; i < rows; ++i)
        for (long k = 0; k < rows; ++k)
            if (i / block != k / block) q(i, k) = 0;
    return q.leftCols(cols);
}

template <class S>
struct Model {
    Mat<S> e, b;
};

template <class S>
bool same(H<S> const &h, Model<S> const &m, double tol, std::string const &what, std::string const &c) {
    Mat<S> e(h.entries()), b(h.basis());
    if (e.rows() != m.e.rows() || e.cols() != m.e.cols()) {
        out().violation(what + ":shape", str("entries ", e.rows(), "x", e.cols(), " expected ", m.e.rows(), "x", m.e.cols()), c);
        return false;
    }
    if (b.rows() != m.b.rows() || b.cols() != m.b.cols()) {
        out().violation(what + ":basis-shape", str("basis ", b.rows(), "x", b.cols(), " expected ", m.b.rows(), "x", m.b.cols()), c);
        return false;
    }
    double sc = 1 + (m.e.size() ? m.e.cwiseAbs().maxCoeff() : 0);
    double x = e.size() ? (e - m.e).cwiseAbs().maxCoeff() : 0, y = b.size() ? (b - m.b).cwiseAbs().maxCoeff() : 0;
    bool ok = true;
    if (!(x <= tol * sc)) ok = false, out().violation(what, str("entries differ by ", x), c);
    if (!(y <= tol)) ok = false, out().violation(what + ":basis", str("basis differs by ", y), c);
    if (h.num_basisvectors() != (size_t)m.b.cols() || h.num_coordinates() != (size_t)m.b.rows()) ok = false, out().violation(what + ":size", "number of states", c);
    return ok;
}

// judge a diagonalisation; continue from what the library delivered
template <class S>
void diagonalized(H<S> const &h, Model<S> &m, std::string const &c) {
    long d = m.e.rows();
    Mat<S> e(h.entries()), b(h.basis());
    if (e.rows() != d || e.cols() != d || b.rows() != m.b.rows() || b.cols() != m.b.cols()) return out().violation("diagonalize:shape", "shape changed", c);
    if (d == 0) return;
    double sc = m.e.norm() + 1e-3;
    Mat<S> off = e;
    off.diagonal().setZero();
    if (off.cwiseAbs().maxCoeff() != 0) out().violation("diagonalize:off-diagonal", str(off.cwiseAbs().maxCoeff()), c);
    Eigen::SelfAdjointEigenSolver<Mat<S>> es(m.e);
    std::vector<double> got, want;
    for (long k = 0; k < d; ++k) {
        got.push_back(std::real(e(k, k)));
        want.push_back(es.eigenvalues()(k));
        if (!(std::abs(std::imag(e(k, k))) <= 1e-12 * sc)) out().violation("diagonalize:real", "complex energy", c);
    }
    std::sort(got.begin(), got.end());
    for (long k = 0; k < d; ++k)
        if (!(std::abs(got[k] - want[k]) <= 1e-11 * sc)) out().violation("diagonalize:eigenvalue", str("eigenvalue ", got[k], " expected ", want[k]), c);
    // entries below 5e-5 are dropped from the eigenvectors and from the result
    double drop = 5e-5, rows = (double)m.b.rows();
    double tol = drop * (std::sqrt((double)d) + 1) * 1.01;
    Mat<S> full = m.b * es.eigenvectors();
    // nondegenerate vectors: each coefficient up to a common phase
    for (long k = 0; k < d; ++k) {
        double l = std::real(e(k, k));
        long at = -1, near = 0;
        for (long q = 0; q < d; ++q) {
            if (std::abs(es.eigenvalues()(q) - l) < 1e-5 * sc) ++near;
            if (std::abs(es.eigenvalues()(q) - l) < 1e-10 * sc) at = q;
        }
        if (near == 1 && at >= 0) {
            S ph = full.col(at).dot(b.col(k));
            if (!(std::abs(std::abs(ph) - 1) < 1e-4 * rows)) {
                out().violation("diagonalize:vector", str("overlap with the eigenvector ", std::abs(ph)), c);
                continue;
            }
            ph /= std::abs(ph);
            double x = (b.col(k) - ph * full.col(at)).cwiseAbs().maxCoeff();
            worstdiag = std::max(worstdiag, x / tol);
            if (!(x <= tol)) out().violation("diagonalize:coefficient", str("a coefficient of an eigenvector is off by ", x, ", more than dropping tiny entries explains (", tol, ")"), c);
        }
        double nrm = b.col(k).norm();
        if (!(std::abs(nrm - 1) <= tol * std::sqrt(rows))) out().violation("diagonalize:norm", str("norm ", nrm), c);
    }
    double o = (b.adjoint() * b - Mat<S>::Identity(d, d)).cwiseAbs().maxCoeff();
    if (!(o <= 3 * tol * std::sqrt(rows))) out().violation("diagonalize:orthonormal", str(o), c);
    double x = (b * e * b.adjoint() - m.b * m.e * m.b.adjoint()).cwiseAbs().maxCoeff();
    if (!(x <= 3 * tol * std::sqrt(rows) * sc)) out().violation("diagonalize:operator", str("the operator changed by ", x), c);
    m.e = e;
    m.b = b;
}

template <class S>
void history(Rng &r, long it) {
    std::string c = str(sizeof(S) == 8 ? "real" : "complex", " history ", it, ":");
    long rows = r.b(.1) ? r.i(1, 2) : r.i(1, 14), cols = r.b(.6) ? rows : r.i(0, rows);
    Model<S> m;
    m.e = hermitian<S>(r, cols, c);
    m.b = orthonormal<S>(r, rows, cols, c);
    H<S> h;
    if (r.b(.3) && cols > 0) {
        H<S> t(4, 4);
        for (long k = 0; k < cols; ++k) {
            for (long i = 0; i < cols; ++i)
                if (m.e(i, k) != S(0)) {
                    S part = rnd<S>(r);
                    if (r.b(.2)) { // contributions to the same element add up
                        t.addEntries((idx_t)i, (idx_t)k, part);
                        t.addEntries((idx_t)i, (idx_t)k, m.e(i, k) - part);
                    } else
                        t.addEntries((idx_t)i, (idx_t)k, m.e(i, k));
                }
            for (long i = 0; i < rows; ++i)
                if (m.b(i, k) != S(0)) t.addBasis((idx_t)i, (idx_t)k, m.b(i, k));
        }
        t.compress((size_t)cols, (size_t)rows);
        h = t;
        c += " built";
    } else
        h = H<S>(sparse<S>(m.e), sparse<S>(m.b));
    if (!same<S>(h, m, 1e-13, "construct", c)) return;
    long steps = r.i(1, 7);
    bool pure = true; // columns are normalised
    for (long k = 0; k < steps; ++k) {
        long d = m.e.rows();
        H<S> const before = h;
        Model<S> const mb = m;
        int op = (int)r.i(0, 12);
        ++counts[op];
        std::string nm;
        switch (op) {
        case 0:
        case 1: {
            std::string dummy;
            Mat<S> x = hermitian<S>(r, d, dummy);
            H<S> g(sparse<S>(x), sparse<S>(m.b));
            bool alias = r.b(.15);
            if (alias) x = m.e;
            int how = (int)r.i(0, 1);
            S sg = op == 0 ? 1 : -1;
            nm = op == 0 ? "plus" : "minus";
            if (how == 0) {
                if (op == 0)
                    h += alias ? h : g;
                else
                    h -= alias ? h : g;
            } else {
                H<S> res = op == 0 ? h + (alias ? h : g) : h - (alias ? h : g);
                if (!same<S>(h, m, 1e-13, nm + ":operand", c)) return;
                if (!same<S>(g, {alias ? Mat<S>(g.entries()) : x, m.b}, 1e-13, nm + ":operand", c)) return;
                h = res;
            }
            m.e = m.e + sg * x;
            break;
        }
        case 2: {
            nm = "scale";
            int how = (int)r.i(0, 3);
            S f = how < 2 ? rnd<S>(r) : S(r.b(.1) ? 0 : r.normal());
            double fd = std::real(f);
            if (how == 0) h = f * h;
            if (how == 1) h = h * f;
            if (how == 2) h = fd * h;
            if (how == 3) h = h * fd;
            if (how >= 2) f = fd;
            m.e = m.e * f;
            break;
        }
        case 3: {
            nm = "abs";
            h = h.abs();
            m.e = m.e.cwiseAbs().template cast<S>();
            break;
        }
        case 4: {
            nm = "changeBasis";
            long nc = r.i(0, rows);
            std::string dummy;
            Mat<S> nb = r.b(.2) ? m.b : orthonormal<S>(r, m.b.rows(), std::min<long>(nc, m.b.rows()), dummy);
            h = h.changeBasis(sparse<S>(nb));
            Mat<S> t = m.b.adjoint() * nb;
            m.e = (t.adjoint() * m.e * t).eval();
            m.b = nb;
            break;
        }
        case 5: {
            nm = "applyCutoff";
            double cut = std::abs(r.normal()) * (r.b(.2) ? 100 : 1);
            bool edge = false;
            std::vector<long> keep;
            for (long q = 0; q < d; ++q) {
                double x = std::abs(m.e(q, q));
                if (std::abs(x - cut) < 1e-9 * (1 + cut)) edge = true;
                if (x < cut) keep.push_back(q);
            }
            if (edge) continue;
            h.applyCutoff(cut);
            Model<S> t{Mat<S>(keep.size(), keep.size()), Mat<S>(m.b.rows(), keep.size())};
            for (size_t a = 0; a < keep.size(); ++a) {
                t.b.col((long)a) = m.b.col(keep[a]);
                for (size_t b = 0; b < keep.size(); ++b) t.e((long)a, (long)b) = m.e(keep[a], keep[b]);
            }
            m = t;
            break;
        }
        case 6:
        case 7: {
            nm = op == 6 ? "removeBasisvectors(coordinates)" : "removeBasisvectors";
            std::vector<bool> nec((size_t)m.b.rows());
            double p = r.pick(std::vector<double>{.2, .5, .9, 1.});
            for (size_t q = 0; q < nec.size(); ++q) nec[q] = op == 7 || r.b(p);
            if (op == 7 && d > 0 && r.b(.6)) { // a vanishing or small vector
                long q = r.i(0, d - 1);
                double f = r.pick(std::vector<double>{0., .1, .2, .25, .5});
                m.b.col(q) *= S(f);
                h = H<S>(sparse<S>(m.e), sparse<S>(m.b));
                pure = false;
            }
            bool edge = false;
            std::vector<long> keep;
            for (long q = 0; q < d; ++q) {
                double w = 0;
                for (long i = 0; i < m.b.rows(); ++i)
                    if (nec[(size_t)i]) w += std::norm(m.b(i, q));
                if (std::abs(w - .05) < 1e-9) edge = true;
                if (w > .05) keep.push_back(q);
            }
            if (edge) return;
            if (op == 6)
                h.removeUnnecessaryBasisvectors(nec);
            else
                h.removeUnnecessaryBasisvectors();
            Model<S> t{Mat<S>(keep.size(), keep.size()), Mat<S>(m.b.rows(), keep.size())};
            for (size_t a = 0; a < keep.size(); ++a) {
                t.b.col((long)a) = m.b.col(keep[a]);
                for (size_t b = 0; b < keep.size(); ++b) t.e((long)a, (long)b) = m.e(keep[a], keep[b]);
            }
            m = t;
            break;
        }
        case 8: {
            nm = "removeStates";
            std::vector<bool> nec((size_t)m.b.rows());
            std::vector<long> keep;
            for (size_t q = 0; q < nec.size(); ++q)
                if ((nec[q] = r.b(.8))) keep.push_back((long)q);
            h.removeUnnecessaryStates(nec);
            Mat<S> nb(keep.size(), d);
            for (size_t q = 0; q < keep.size(); ++q) nb.row((long)q) = m.b.row(keep[q]);
            m.b = nb;
            pure = false;
            rows = (long)keep.size();
            break;
        }
        case 9: {
            nm = "findUnnecessaryStates";
            std::vector<bool> nec((size_t)m.b.rows()), old;
            for (size_t q = 0; q < nec.size(); ++q) nec[q] = r.b(.2);
            old = nec;
            static_cast<H<S> const &>(h).findUnnecessaryStates(nec);
            for (long i = 0; i < m.b.rows(); ++i) {
                double w = m.b.row(i).squaredNorm();
                bool want = old[(size_t)i] || w > .05;
                if (std::abs(w - .05) > 1e-9 && nec[(size_t)i] != want) out().violation(nm, str("state ", i, " with weight ", w, " marked ", (bool)nec[(size_t)i]), c);
            }
            break;
        }
        case 10: {
            nm = "getBlock";
            std::vector<ptrdiff_t> idx;
            for (long q = 0; q < d; ++q)
                if (r.b(.6)) idx.push_back(q);
            std::shuffle(idx.begin(), idx.end(), r.g);
            H<S> g = h.getBlock(idx);
            if (!same<S>(h, m, 1e-13, nm + ":operand", c)) return;
            Model<S> t{Mat<S>(idx.size(), idx.size()), Mat<S>(m.b.rows(), idx.size())};
            for (size_t a = 0; a < idx.size(); ++a) {
                t.b.col((long)a) = m.b.col(idx[a]);
                for (size_t b = 0; b < idx.size(); ++b) t.e((long)a, (long)b) = m.e(idx[a], idx[b]);
            }
            h = g;
            m = t;
            break;
        }
        case 11: {
            nm = "findSubs";
            auto v = static_cast<H<S> const &>(h).findSubs();
            long total = 0;
            for (auto &x : v) total += (long)x.num_basisvectors();
            if (total != d) out().violation(nm, str("the blocks have ", total, " of ", d, " vectors"), c);
            break;
        }
        default: {
            nm = "diagonalize";
            if (!pure || (m.b.rows() < d)) continue;
            if (d && !((m.b.adjoint() * m.b - Mat<S>::Identity(d, d)).cwiseAbs().maxCoeff() < 1e-9)) continue;
            if (d && !((m.e - m.e.adjoint()).cwiseAbs().maxCoeff() < 1e-9)) continue;
            c += " " + nm;
            h.diagonalize();
            diagonalized<S>(h, m, c);
            out().eval(c, d > 1);
            pure = false; // the dropped entries add up from here on
            continue;
        }
        }
        c += " " + nm;
        out().eval(c, d > 0);
        if (!same<S>(h, m, 1e-12, nm, c)) return;
        m.e = Mat<S>(static_cast<H<S> const &>(h).entries());
        m.b = Mat<S>(static_cast<H<S> const &>(h).basis());
        // the operand kept as a copy is unaffected
        if (!same<S>(before, mb, 1e-12, nm + ":copy", c)) return;
        // what would be saved now is what the object holds
        H<S> hcopy = h, fresh(static_cast<H<S> const &>(h).entries(), static_cast<H<S> const &>(h).basis());
        if (hcopy.serialize() != fresh.serialize()) out().violation(nm + ":stale", "the serialised form is not that of the current matrices", c);
        if (r.b(.3)) h.serialize(), h.hashEntries();
    }
    if (!(m.b.rows() < m.e.rows()) && pure && m.e.rows() > 0 && (m.e - m.e.adjoint()).cwiseAbs().maxCoeff() < 1e-9 &&
        (m.b.adjoint() * m.b - Mat<S>::Identity(m.e.rows(), m.e.rows())).cwiseAbs().maxCoeff() < 1e-9) {
        c += " diagonalize";
        ++counts[12];
        h.diagonalize();
        diagonalized<S>(h, m, c);
        out().eval(c, m.e.rows() > 1);
    }
}

int main() {
    Rng r(7);
    for (long it = 0; it < n(4500, 100000); ++it) {
        out().casebegin(str("history ", it));
        history<double>(r, it);
        history<std::complex<double>>(r, it);
    }
    char const *nm[] = {"plus", "minus", "scale", "abs", "changeBasis", "applyCutoff", "removeBasisvectors_coordinates", "removeBasisvectors", "removeStates", "findUnnecessary", "getBlock", "findSubs", "diagonalize"};
    for (int k = 0; k < 13; ++k) out().count(nm[k], counts[k]);
    out().count("worst_diagonalize_percent_of_tolerance", (long)(100 * worstdiag));
    VH_MAIN_END();
}
