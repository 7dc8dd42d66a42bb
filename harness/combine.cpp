// C08: pair-state symmetry sectors built by combine().
#include "Basisnames.hpp"
#include "ConfParser.hpp"
#include "Hamiltonianmatrix.hpp"
#include "vh.hpp"
#include <Eigen/Dense>
#include <map>
#include <set>

using namespace vh;
template <class S>
using Mat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
using Vec = Eigen::VectorXd;

static double const TOL = 1e-9;
static long sectors = 0, families = 0, vectors = 0, windows = 0;

struct Q {
    int n, l;
    double j, m;
};
static double sgn(double x) { return std::lround(x) % 2 == 0 ? 1. : -1.; }

template <class S>
S rnd(Rng &r);
template <>
double rnd<double>(Rng &r) { return r.normal(); }
template <>
std::complex<double> rnd<std::complex<double>>(Rng &r) {
    double a = r.normal();
    return {a, r.normal()};
}

// A one-atom Hamiltonian: eigenvectors (columns) and eigenvalues; groups of basis states that may mix.
template <class S>
struct Atom {
    std::vector<Q> q;
    Mat<S> b; // columns: eigenvectors
    Vec e;
    Hamiltonianmatrix<S> ham;
};

// which: 0 no mixing, 1 mix states of equal l parity (magnetic field in any direction), 2 mix states of equal m,
// +m and -m related by reflection (electric field along z), 3 equal m and l parity (magnetic field along z),
// 4 anything
template <class S>
Atom<S> atom(Rng &r, std::vector<Q> const &q, int which, bool degenerate, bool shuffle) {
    Atom<S> a;
    a.q = q;
    long d = (long)q.size();
    a.b = Mat<S>::Zero(d, d);
    a.e = Vec::Zero(d);
    std::map<std::vector<long>, std::vector<long>> blocks;
    for (long k = 0; k < d; ++k) {
        std::vector<long> key;
        if (which == 0) key = {k};
        if (which == 1) key = {q[k].l % 2};
        if (which == 2) key = {std::lround(2 * q[k].m)};
        if (which == 3) key = {std::lround(2 * q[k].m), q[k].l % 2};
        blocks[key].push_back(k);
    }
    long col = 0;
    if (which == 0) {
        std::map<std::vector<long>, double> en;
        for (long k = 0; k < d; ++k) {
            std::vector<long> key{q[k].n, q[k].l, std::lround(2 * q[k].j)};
            if (!degenerate) key.push_back(std::lround(2 * std::abs(q[k].m)));
            if (!en.count(key)) en[key] = r.normal();
            a.b(k, k) = 1;
            a.e(k) = en[key];
        }
    } else {
        std::map<std::vector<long>, std::pair<Mat<S>, Vec>> done;
        for (auto const &bl : blocks) {
            long s = (long)bl.second.size();
            Mat<S> x(s, s);
            for (long i = 0; i < s; ++i)
                for (long k = 0; k < s; ++k) x(i, k) = rnd<S>(r);
            x = (x + x.adjoint()).eval();
            Eigen::SelfAdjointEigenSolver<Mat<S>> es(x);
            Mat<S> v = es.eigenvectors();
            Vec e = es.eigenvalues();
            if (which == 2) {
                std::vector<long> other{-bl.first[0]};
                auto it = done.find(other);
                if (it != done.end() && it->second.second.size() == s) {
                    // mirror image of the block with the opposite m: same energies, signs from the reflection
                    v = it->second.first;
                    e = it->second.second;
                    for (long i = 0; i < s; ++i) {
                        Q const &z = q[bl.second[i]];
                        v.row(i) *= sgn(z.l + z.m - z.j);
                    }
                }
                done[bl.first] = {v, e};
            }
            for (long k = 0; k < s; ++k) {
                for (long i = 0; i < s; ++i) a.b(bl.second[i], col) = v(i, k);
                a.e(col++) = e(k);
            }
        }
    }
    // sorted by energy as after diagonalize(), or in any order
    std::vector<long> order(d);
    for (long k = 0; k < d; ++k) order[k] = k;
    if (shuffle)
        std::shuffle(order.begin(), order.end(), r.g);
    else if (r.b(.7))
        std::stable_sort(order.begin(), order.end(), [&](long x, long y) { return a.e(x) < a.e(y) - 1e-12; });
    Mat<S> b2 = a.b;
    Vec e2 = a.e;
    for (long k = 0; k < d; ++k) {
        b2.col(k) = a.b.col(order[k]);
        e2(k) = a.e(order[k]);
    }
    a.b = b2;
    a.e = e2;
    Eigen::SparseMatrix<S> en(d, d), bs(d, d);
    for (long k = 0; k < d; ++k) {
        en.insert(k, k) = a.e(k);
        for (long i = 0; i < d; ++i)
            if (a.b(i, k) != S(0)) bs.insert(i, k) = a.b(i, k);
    }
    en.makeCompressed();
    bs.makeCompressed();
    a.ham = Hamiltonianmatrix<S>(en, bs);
    return a;
}

static std::vector<Q> names(BasisnamesOne const &b) {
    std::vector<Q> q;
    for (auto const &s : b) q.push_back({s.n, s.l, s.j, s.m});
    return q;
}

template <class S>
void family(Rng &r, long it) {
    bool same = r.b(.65);
    Configuration conf;
    int n1 = (int)r.i(2, 4);
    auto setq = [&](std::string const &i, int n) {
        int l = (int)r.i(0, std::min(n - 1, 2));
        double j = l == 0 ? .5 : l + (r.b() ? .5 : -.5), m = -j + (double)r.i(0, (long)(2 * j));
        conf["n" + i] << n;
        conf["l" + i] << l;
        conf["j" + i] << j;
        conf["m" + i] << m;
    };
    setq("1", n1);
    if (r.b(.3)) {
        for (std::string k : {"n", "l", "j", "m"}) conf[k + "2"] = conf[k + "1"];
    } else {
        setq("2", same ? n1 + (int)r.i(0, 1) : (int)r.i(2, 4));
    }
    conf["species1"] << "Rb";
    conf["species2"] << (same ? "Rb" : "Cs");
    conf["deltaNSingle"] << r.i(0, 1) * (r.b(.3) ? 1 : 0);
    conf["deltaLSingle"] << r.i(0, 1);
    conf["deltaJSingle"] << r.i(0, 1);
    conf["deltaMSingle"] << (r.b(.6) ? -1 : 1);
    conf["missingCalc"] << "true";
    conf["missingWhittaker"] << "true";

    std::shared_ptr<BasisnamesOne> one, other;
    std::shared_ptr<BasisnamesTwo> two;
    if (same) {
        one = other = std::make_shared<BasisnamesOne>(BasisnamesOne::fromBoth(conf));
        two = std::make_shared<BasisnamesTwo>(one);
    } else {
        one = std::make_shared<BasisnamesOne>(BasisnamesOne::fromFirst(conf));
        other = std::make_shared<BasisnamesOne>(BasisnamesOne::fromSecond(conf));
        two = std::make_shared<BasisnamesTwo>(one, other);
    }
    std::vector<Q> qa = names(*one), qb = names(*other);
    if (qa.size() * qb.size() > (it % 12 == 0 ? 484u : 110u) || qa.empty() || qb.empty()) return;
    // restricted bases: only whole ±m pairs, so that the reflection stays a symmetry
    auto closed = [](std::vector<Q> const &q) {
        for (auto const &x : q) {
            bool f = false;
            for (auto const &y : q) f = f || (y.n == x.n && y.l == x.l && y.j == x.j && y.m == -x.m);
            if (!f) return false;
        }
        return true;
    };

    int kind = (int)r.i(0, 4);
    bool inv = same && (kind == 0 || kind == 1 || kind == 3) && r.b(.5);
    bool per = same && r.b(.5);
    bool ref = (kind == 0 || kind == 2) && closed(qa) && closed(qb) && r.b(.5);
    bool rot = (kind == 0 || kind == 2 || kind == 3) && r.b(.6);
    // the pair operators must commute with each other for the sectors to exist: they do, see below
    bool degenerate = r.b();
    bool shuffle = r.b(.25);
    Atom<S> A = atom<S>(r, qa, kind, degenerate, shuffle), B = same ? A : atom<S>(r, qb, kind, degenerate, shuffle);
    long da = (long)qa.size(), db = (long)qb.size(), D = da * db;
    std::string c = str(sizeof(S) == 8 ? "real" : "complex", same ? " same" : " different", " kind ", kind, " dims ", da, "x", db, inv ? " inversion" : "", per ? " permutation" : "",
                        ref ? " reflection" : "", rot ? " rotation" : "", degenerate ? " degenerate" : "", shuffle ? " shuffled" : "", " family ", it);
    std::string cls = str(inv ? "i" : "", per ? "p" : "", ref ? "r" : "", rot ? "m" : "", kind);
    out().casebegin(c);

    // coordinates and the symmetry operators in them
    std::vector<Q> c1, c2;
    for (auto const &x : qa)
        for (auto const &y : qb) {
            c1.push_back(x);
            c2.push_back(y);
        }
    std::map<std::vector<long>, long> index;
    auto key = [](Q const &x, Q const &y) {
        return std::vector<long>{x.n, x.l, std::lround(2 * x.j), std::lround(2 * x.m), y.n, y.l, std::lround(2 * y.j), std::lround(2 * y.m)};
    };
    for (long k = 0; k < D; ++k) index[key(c1[k], c2[k])] = k;
    { // the combined basis enumerates the same states
        long k = 0;
        for (auto const &s : *two) {
            if (k >= D || (long)s.idx != k || s.n[0] != c1[k].n || s.l[1] != c2[k].l || s.m[0] != (float)c1[k].m || s.m[1] != (float)c2[k].m || s.j[0] != (float)c1[k].j)
                return out().violation("pair-basis", str("pair state ", k, " is not the product of the one-atom states"), c);
            ++k;
        }
        if (k != D) return out().violation("pair-basis", str(k, " pair states instead of ", D), c);
    }
    auto op = [&](char which) {
        Eigen::MatrixXd P = Eigen::MatrixXd::Zero(D, D);
        for (long k = 0; k < D; ++k) {
            Q x = c1[k], y = c2[k];
            double s = 1;
            if (which == 'i') s = -sgn(x.l + y.l), std::swap(x, y);
            if (which == 'p') s = -1, std::swap(x, y);
            if (which == 'r') s = sgn(x.l + y.l + x.m + y.m - x.j - y.j), x.m = -x.m, y.m = -y.m;
            P(index.at(key(x, y)), k) = s;
        }
        return P;
    };
    Eigen::MatrixXd I, P, R;
    if (inv) I = op('i');
    if (per) P = op('p');
    if (ref) R = op('r');
    std::vector<double> M(D);
    for (long k = 0; k < D; ++k) M[k] = c1[k].m + c2[k].m;

    // the energy window
    std::vector<double> sums;
    for (long x = 0; x < da; ++x)
        for (long y = 0; y < db; ++y) sums.push_back(A.e(x) + B.e(y));
    double deltaE = -1;
    if (r.b(.5)) {
        for (int tries = 0; tries < 20; ++tries) {
            double w = std::abs(r.pick(sums)) + r.u(-.1, .1);
            if (w < 0) continue;
            bool clear = true;
            for (double s : sums) clear = clear && std::abs(std::abs(s) - w) > 1e-6;
            if (clear) {
                deltaE = w;
                ++windows;
                break;
            }
        }
    }
    Mat<S> expected = Mat<S>::Zero(D, D); // projector on the pair states within the window
    long count = 0;
    for (long x = 0; x < da; ++x)
        for (long y = 0; y < db; ++y) {
            double s = A.e(x) + B.e(y);
            if (!(deltaE < 0 || std::abs(s) < deltaE)) continue;
            ++count;
            Eigen::Matrix<S, Eigen::Dynamic, 1> v(D);
            for (long i = 0; i < da; ++i)
                for (long k = 0; k < db; ++k) v(i * db + k) = A.b(i, x) * B.b(k, y);
            expected += v * v.adjoint();
        }
    Mat<S> H0 = Mat<S>::Zero(D, D);
    {
        Mat<S> ha = A.b * A.e.template cast<S>().asDiagonal() * A.b.adjoint(), hb = B.b * B.e.template cast<S>().asDiagonal() * B.b.adjoint();
        for (long i = 0; i < da; ++i)
            for (long k = 0; k < db; ++k)
                for (long i2 = 0; i2 < da; ++i2)
                    for (long k2 = 0; k2 < db; ++k2) {
                        S v = 0;
                        if (k == k2) v += ha(i, i2);
                        if (i == i2) v += hb(k, k2);
                        H0(i * db + k, i2 * db + k2) = v;
                    }
    }

    std::set<long> rots;
    if (rot)
        for (double m : M) rots.insert(ref ? std::labs(std::lround(m)) : std::lround(m));
    else
        rots.insert(NA);
    auto par = [](bool on) { return on ? std::vector<parity_t>{EVEN, ODD} : std::vector<parity_t>{NA}; };
    Mat<S> all(D, 0);
    std::vector<double> energies;
    bool bad = false;
    for (parity_t si : par(inv))
        for (parity_t sp : par(per))
            for (parity_t sr : par(ref))
                for (long m : rots) {
                    Symmetry sym;
                    sym.inversion = si;
                    sym.permutation = sp;
                    sym.reflection = sr;
                    sym.rotation = (int)m;
                    auto h = combine(A.ham, B.ham, deltaE, two, sym);
                    h.removeUnnecessaryBasisvectors();
                    auto const &hc = h;
                    Mat<S> b(hc.basis()), e(hc.entries());
                    ++sectors;
                    vectors += b.cols();
                    std::string cs = str(c, " sector inv=", si == NA ? 0 : (int)si, " per=", sp == NA ? 0 : (int)sp, " ref=", sr == NA ? 0 : (int)sr, " M=", m == NA ? -99 : m);
                    auto fail = [&](char const *k, std::string const &msg) {
                        bad = true;
                        out().violation(str(k, ":", cls), msg, cs);
                    };
                    if (b.rows() != D || e.rows() != b.cols() || e.cols() != b.cols()) {
                        fail("shape", str("basis ", b.rows(), "x", b.cols(), " entries ", e.rows(), "x", e.cols()));
                        continue;
                    }
                    long z = b.cols();
                    double x = z ? (b.adjoint() * b - Mat<S>::Identity(z, z)).cwiseAbs().maxCoeff() : 0;
                    if (!(x < TOL)) fail("orthonormal", str("the ", z, " vectors of a sector are not orthonormal: ", x));
                    Mat<S> off = e;
                    off.diagonal().setZero();
                    if (z && !(off.cwiseAbs().maxCoeff() == 0)) fail("not-diagonal", "energies are not diagonal");
                    if (z) {
                        x = (H0 * b - b * e).cwiseAbs().maxCoeff();
                        if (!(x < TOL)) fail("energy", str("a vector is not an eigenvector with the stored energy: ", x));
                        auto sect = [&](Eigen::MatrixXd const &o, int s, char const *nm) {
                            double y = (o.cast<S>() * b - double(s) * b).cwiseAbs().maxCoeff();
                            if (!(y < TOL)) fail(nm, str("a vector of the sector does not have its symmetry: ", y));
                        };
                        if (si != NA) sect(I, si, "inversion");
                        if (sp != NA) sect(P, sp, "permutation");
                        if (sr != NA) sect(R, sr, "reflection");
                        if (m != NA)
                            for (long k = 0; k < D; ++k)
                                if (std::lround(M[k]) != m && !(ref && std::lround(M[k]) == -m) && b.row(k).cwiseAbs().maxCoeff() > TOL) fail("rotation", str("contains a state of total momentum ", M[k]));
                    }
                    for (long k = 0; k < z; ++k) energies.push_back(std::real(e(k, k)));
                    Mat<S> grown(D, all.cols() + z);
                    grown << all, b;
                    all = grown;
                }
    ++families;
    out().eval(c, inv || per || ref || rot);
    // together: every pair state of the window, exactly once
    if (all.cols() != count) {
        bad = true;
        out().violation(str("count:", cls), str("the sectors contain ", all.cols(), " states, the window ", count), c);
    }
    double x = (all * all.adjoint() - expected).cwiseAbs().maxCoeff();
    if (!(x < TOL)) {
        bad = true;
        out().violation(str("cover:", cls), str("the sectors together do not span the pair states of the window: ", x), c);
    }
    std::vector<double> want;
    for (double s : sums)
        if (deltaE < 0 || std::abs(s) < deltaE) want.push_back(s);
    std::sort(want.begin(), want.end());
    std::sort(energies.begin(), energies.end());
    bool eq = want.size() == energies.size();
    for (size_t k = 0; eq && k < want.size(); ++k) eq = std::abs(want[k] - energies[k]) < 1e-9;
    if (!eq) out().violation(str("spectrum:", cls), "the union of the spectra is not the spectrum without symmetries", c);
    (void)bad;

    // energycutoff() marks exactly the coordinates that occur in the window
    std::vector<bool> necessary((size_t)D, false);
    energycutoff(A.ham, B.ham, deltaE, necessary);
    for (long k = 0; k < D; ++k) {
        bool occurs = false;
        double weight = 0;
        for (long a = 0; a < da; ++a)
            for (long b = 0; b < db; ++b) {
                if (!(deltaE < 0 || std::abs(A.e(a) + B.e(b)) < deltaE)) continue;
                double w = std::abs(A.b(k / db, a) * B.b(k % db, b));
                occurs = occurs || w > 0;
                weight = std::max(weight, w);
            }
        if (necessary[k] != occurs && (necessary[k] ? weight < 1e-14 : weight > .3)) out().violation("energycutoff", str("coordinate ", k, " weight ", weight, " marked ", (bool)necessary[k]), c);
    }
}

int main() {
    Rng r(88);
    for (long it = 0; it < n(900, 20000); ++it) {
        if (r.b())
            family<double>(r, it);
        else
            family<std::complex<double>>(r, it);
    }
    out().count("families", families);
    out().count("sectors", sectors);
    out().count("vectors", vectors);
    out().count("energy_windows", windows);
    VH_MAIN_END();
}
