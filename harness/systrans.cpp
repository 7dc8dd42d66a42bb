// C17: random sequences of basis transformations on one-atom and pair systems. Every operation is judged by what it does
// to the basis vectors and to the Hamiltonian, read before and after it; after a change of a parameter the Hamiltonian
// has to be the operator of the current parameters in the space reached by the operations so far.
#include "pairmodel.hpp"
#include "MatrixElementCache.hpp"
#include "SystemOne.hpp"
#include "SystemTwo.hpp"
using namespace vh;

static long ops = 0, params = 0, rotations = 0, restrictions = 0, entries = 0, overlaps = 0, schrieffer = 0, refused = 0, connections = 0;
static double spin(std::string const &s) { return s == "Sr1" ? 0 : s == "Sr3" ? 1 : .5; }

// exp(i t J_axis) in the basis m = j, j-1, ..., -j from ladder operators
static M expJ(int twoj, char axis, double t) {
    int d = twoj + 1;
    M J = M::Zero(d, d);
    double j = twoj / 2.;
    for (int k = 0; k < d; ++k) {
        double m = j - k;
        if (axis == 'z') J(k, k) = m;
        else if (k > 0) { // J+ |m> = c |m+1>
            double c = std::sqrt(j * (j + 1) - m * (m + 1));
            J(k - 1, k) += cd(0, -.5) * c;
            J(k, k - 1) += cd(0, .5) * c;
        }
    }
    Eigen::SelfAdjointEigenSolver<M> s(J);
    Eigen::VectorXcd ph(d);
    for (int k = 0; k < d; ++k) ph[k] = std::exp(cd(0, t * s.eigenvalues()[k]));
    return s.eigenvectors() * ph.asDiagonal() * s.eigenvectors().adjoint();
}
struct Rot { // components in the frame rotated by Rz(al) Ry(be) Rz(ga)
    double al, be, ga;
    std::map<int, M> memo;
    cd operator()(StateOne const &a, StateOne const &b) {
        if (a.getSpecies() != b.getSpecies() || a.getN() != b.getN() || a.getL() != b.getL() || a.getJ() != b.getJ()) return 0;
        int tj = (int)std::lround(2 * a.getJ());
        auto it = memo.find(tj);
        if (it == memo.end()) it = memo.emplace(tj, expJ(tj, 'z', ga) * expJ(tj, 'y', be) * expJ(tj, 'z', al)).first;
        return it->second((int)std::lround(a.getJ() - a.getM()), (int)std::lround(b.getJ() - b.getM()));
    }
    cd operator()(StateTwo const &a, StateTwo const &b) {
        cd x = (*this)(a.getFirstState(), b.getFirstState());
        return x == 0. ? x : x * (*this)(a.getSecondState(), b.getSecondState());
    }
    template <class St>
    M matrix(std::vector<St> const &st) {
        M R(st.size(), st.size());
        for (size_t i = 0; i < st.size(); ++i)
            for (size_t j = 0; j < st.size(); ++j) R(i, j) = (*this)(st[i], st[j]);
        return R;
    }
};
static bool fullmanifolds(std::vector<StateOne> const &st) {
    std::set<StateOne> all(st.begin(), st.end());
    for (auto const &s : st) {
        if (s.isArtificial()) return false;
        for (float m = -s.getJ(); m <= s.getJ(); ++m)
            if (!all.count(StateOne(s.getSpecies(), s.getN(), s.getL(), s.getJ(), m))) return false;
    }
    return true;
}
static bool fullmanifolds(std::vector<StateTwo> const &st) {
    std::set<StateTwo> all(st.begin(), st.end());
    for (auto const &s : st) {
        if (s.isArtificial(0) || s.isArtificial(1)) return false;
        for (float m = -s.getJ(0); m <= s.getJ(0); ++m)
            for (float k = -s.getJ(1); k <= s.getJ(1); ++k)
                if (!all.count(StateTwo(s.getSpecies(), s.getN(), s.getL(), s.getJ(), {{m, k}}))) return false;
    }
    return true;
}
static bool allowed(StateOne const &s, int what, std::set<int> const &ok, std::set<float> const &okf) {
    if (s.isArtificial()) return true;
    return what == 0 ? ok.count(s.getN()) : what == 1 ? ok.count(s.getL()) : what == 2 ? okf.count(s.getJ()) : okf.count(s.getM());
}
static bool allowed(StateTwo const &s, int what, std::set<int> const &ok, std::set<float> const &okf) { return allowed(s.getFirstState(), what, ok, okf) && allowed(s.getSecondState(), what, ok, okf); }

static void numbers(StateOne const &s, int what, std::set<int> &ok, std::set<float> &okf) {
    if (what == 0) ok.insert(s.getN());
    if (what == 1) ok.insert(s.getL());
    if (what == 2) okf.insert(s.getJ());
    if (what == 3) okf.insert(s.getM());
}
static void numbers(StateTwo const &s, int what, std::set<int> &ok, std::set<float> &okf) {
    numbers(s.getFirstState(), what, ok, okf);
    numbers(s.getSecondState(), what, ok, okf);
}

// --- current parameters and the operator they stand for ---
struct ParamOne {
    using State = StateOne;
    sm::One model;
    sm::Fields f;
    M op(double *scale) { return sm::hamiltonian(model, f, scale); }
};
struct ParamTwo {
    using State = StateTwo;
    Pair model;
    M H0;
    Geo g;
    M op(double *scale) {
        M V = model.interaction(g);
        if (scale) *scale = sm::maxabs(V);
        return H0 + V;
    }
};
template <class S, class P, class Sys>
static bool change(Rng &r, P &p, Sys &sys, std::string &d);
template <class S>
static bool change1(Rng &r, ParamOne &p, SystemOne<S> &sys, std::string &d) {
    constexpr bool cplx = std::is_same<S, std::complex<double>>::value;
    if (r.b(.7)) {
        p.f.E = {{r.b() ? r.u(-60, 60) : 0, cplx && r.b() ? r.u(-60, 60) : 0, r.u(-60, 60)}};
        sys.setEfield(p.f.E);
        d = str("E(", p.f.E[0], ",", p.f.E[1], ",", p.f.E[2], ")");
    } else {
        p.f.B = {{r.b() ? r.u(-3e3, 3e3) : 0, cplx && r.b() ? r.u(-3e3, 3e3) : 0, r.u(-3e3, 3e3)}};
        sys.setBfield(p.f.B);
        d = str("B(", p.f.B[0], ",", p.f.B[1], ",", p.f.B[2], ")");
    }
    return true;
}
template <class S>
static bool change2(Rng &r, ParamTwo &p, SystemTwo<S> &sys, std::string &d) {
    double x = std::exp(r.u(std::log(.6), std::log(4.))), t = r.b() ? 0 : r.u(-3, 3);
    p.g.distance = x;
    p.g.R = {{x * std::sin(t), 0, x * std::cos(t)}};
    if (t == 0) p.g.R = {{0, 0, x}};
    sys.setDistance(x);
    sys.setAngle(t);
    d = str("distance ", x, " angle ", t);
    return true;
}
template <>
bool change<double, ParamOne, SystemOne<double>>(Rng &r, ParamOne &p, SystemOne<double> &s, std::string &d) { return change1<double>(r, p, s, d); }
template <>
bool change<cd, ParamOne, SystemOne<cd>>(Rng &r, ParamOne &p, SystemOne<cd> &s, std::string &d) { return change1<cd>(r, p, s, d); }
template <>
bool change<double, ParamTwo, SystemTwo<double>>(Rng &r, ParamTwo &p, SystemTwo<double> &s, std::string &d) { return change2<double>(r, p, s, d); }
template <>
bool change<cd, ParamTwo, SystemTwo<cd>>(Rng &r, ParamTwo &p, SystemTwo<cd> &s, std::string &d) { return change2<cd>(r, p, s, d); }

template <class Sys, class State>
struct Snap {
    M B, H;
    std::vector<State> st;
    explicit Snap(Sys &s) : H(sm::dense(s.getHamiltonian())), st(s.getStates()) { B = sm::dense(s.getBasisvectors()); }
};
static std::vector<StateOne> wild(Rng &r, StateOne s) {
    bool n = r.b(), l = r.b(), j = r.b(), m = r.b();
    if (!n && !l && !j && !m) m = true;
    return {StateOne(s.getSpecies(), n ? ARB : s.getN(), l ? ARB : s.getL(), j ? ARB : s.getJ(), m ? ARB : s.getM())};
}
static std::vector<StateTwo> wild(Rng &r, StateTwo s) {
    int w = (int)r.i(1, 3);
    return {StateTwo(w & 1 ? wild(r, s.getFirstState())[0] : s.getFirstState(), w & 2 ? wild(r, s.getSecondState())[0] : s.getSecondState())};
}
static bool artificial(StateOne const &s) { return s.isArtificial(); }
static bool artificial(StateTwo const &s) { return s.isArtificial(0) || s.isArtificial(1); }
// contained in a state with wildcards, by attributes
static bool within(StateOne const &a, StateOne const &g) {
    return a.getSpecies() == g.getSpecies() && (g.getN() == ARB || g.getN() == a.getN()) && (g.getL() == ARB || g.getL() == a.getL()) && (g.getJ() == ARB || g.getJ() == a.getJ()) && (g.getM() == ARB || g.getM() == a.getM());
}
static bool within(StateTwo const &a, StateTwo const &g) { return within(a.getFirstState(), g.getFirstState()) && within(a.getSecondState(), g.getSecondState()); }

template <class S, class P, class Sys>
struct Trial {
    using State = typename P::State;
    static constexpr bool cplx = std::is_same<S, std::complex<double>>::value;
    Rng &r;
    Sys &sys;
    P p;
    std::vector<State> st0;
    M full; // basis vectors in the initial states
    bool isfixed = false, truncated = false, entryedited = false, known = true, contained = false, saving; // isfixed: unitarised
    double sysnorm = .05;
    std::string hist;
    Trial(Rng &r, Sys &sys, P p, bool saving, bool contained, std::string c) : r(r), sys(sys), p(std::move(p)), contained(contained), saving(saving), hist(std::move(c)) {
        Snap<Sys, State> a(sys);
        st0 = a.st;
        full = a.B;
    }
    void bad(std::string const &k, std::string const &m) { out().violation(k, m, hist); known = false; }
    // rows of full that are left
    M rows(std::vector<State> const &st) const {
        M x(st.size(), full.cols());
        for (size_t i = 0; i < st.size(); ++i) {
            size_t k = 0;
            while (k < st0.size() && !(st0[k] == st[i])) ++k;
            if (k == st0.size()) return M();
            x.row(i) = full.row(k);
        }
        return x;
    }
    bool same(std::string const &k, M const &a, M const &b, double tol) {
        if (a.rows() != b.rows() || a.cols() != b.cols()) { bad(k, str("shape ", a.rows(), "x", a.cols(), ", expected ", b.rows(), "x", b.cols())); return false; }
        double x = a.size() ? sm::maxabs(a - b) : 0;
        if (!(x <= tol)) { bad(k, str("differs by ", x, ", tolerance ", tol)); return false; }
        return true;
    }
    // V with b = a V for well conditioned a
    bool transformation(M const &a, M const &b, M &V, double &err) {
        if (a.rows() < a.cols()) return false;
        Eigen::SelfAdjointEigenSolver<M> e(a.adjoint() * a);
        if (e.eigenvalues()[0] < 1e-4) return false;
        V = e.operatorInverseSqrt() * (e.operatorInverseSqrt() * (a.adjoint() * b));
        err = sm::maxabs(a * V - b);
        return true;
    }
    double hs(M const &H) { return 1e-11 * sm::maxabs(H) + 1e-12; }
    void check_param(Snap<Sys, State> const &b, Snap<Sys, State> const &a) {
        ++params;
        if (!(a.st == b.st)) return bad("param:states", "");
        M x = rows(b.st), V;
        double err = 0;
        if (!x.size() || !transformation(b.B, a.B, V, err)) { known = false; return; }
        if (!(err <= 1e-8)) return bad("param:space", str("basis vectors leave the space by ", err));
        if (!(sm::maxabs(V.adjoint() * V - M::Identity(V.cols(), V.cols())) <= 1e-6)) return bad("param:unitary", "");
        full = full * V;
        double sc = 0;
        M F = p.op(&sc), want = full.adjoint() * F * full;
        same("param:hamiltonian", a.H, want, 2e-6 * sc + 1e-9 * sm::maxabs(F));
    }
    void run(long steps) {
        for (long k = 0; k < steps && known; ++k) step();
    }
    void step();
    void overlap(Snap<Sys, State> const &b);
    void indices(Snap<Sys, State> const &b);
};
template <class S, class P, class Sys>
void Trial<S, P, Sys>::overlap(Snap<Sys, State> const &b) {
    ++overlaps;
    std::vector<size_t> idx;
    std::vector<State> q;
    std::string d = " overlap";
    Rot rot{0, 0, 0, {}};
    int mode = (int)r.i(0, 3);
    bool art = false;
    for (auto const &s : b.st) art = art || artificial(s);
    if (mode == 0 || art) {
        for (size_t i = 0; i < b.st.size(); ++i)
            if (r.b(.2) || idx.empty()) idx.push_back(i);
    } else if (mode == 1) {
        long n = r.i(1, 3);
        for (long i = 0; i < n; ++i) { q.push_back(b.st[(size_t)r.i(0, (long)b.st.size() - 1)]); }
    } else {
        q = wild(r, b.st[(size_t)r.i(0, (long)b.st.size() - 1)]);
    }
    if (!q.empty())
        for (auto const &g : q)
            for (size_t i = 0; i < b.st.size(); ++i)
                if (within(b.st[i], g)) idx.push_back(i);
    M e = M::Zero((long)b.st.size(), (long)idx.size());
    for (size_t k = 0; k < idx.size(); ++k) e((long)idx[k], (long)k) = 1;
    Eigen::VectorXd got;
    if (!art && r.b(.5) && fullmanifolds(b.st)) {
        rot = {cplx ? r.u(-3, 3) : 0, r.u(-3, 3), cplx ? r.u(-3, 3) : 0, {}};
        e = rot.matrix(b.st) * e;
        if (r.b(.5)) {
            Eigen::Matrix3d m(Eigen::AngleAxisd(rot.al, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(rot.be, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(rot.ga, Eigen::Vector3d::UnitZ()));
            double s1 = r.u(.3, 4), s2 = r.u(.3, 4);
            std::array<double, 3> z{{m(0, 2) * s1, m(1, 2) * s1, m(2, 2) * s1}}, y{{m(0, 1) * s2, m(1, 1) * s2, m(2, 1) * s2}};
            // with real coefficients only rotations about the y-axis by the angle can be expressed
            if (!cplx && std::sin(rot.be) < 0) return;
            d += " axes";
            out().casebegin(hist + d);
            got = q.empty() ? (idx.size() == 1 ? sys.getOverlap(idx[0], z, y) : sys.getOverlap(idx, z, y)) : q.size() == 1 ? sys.getOverlap(q[0], z, y) : sys.getOverlap(q, z, y);
        } else {
            d += " angles";
            out().casebegin(hist + d);
            got = q.empty() ? (idx.size() == 1 ? sys.getOverlap(idx[0], rot.al, rot.be, rot.ga) : sys.getOverlap(idx, rot.al, rot.be, rot.ga)) : q.size() == 1 ? sys.getOverlap(q[0], rot.al, rot.be, rot.ga) : sys.getOverlap(q, rot.al, rot.be, rot.ga);
        }
    } else {
        out().casebegin(hist + d);
        got = q.empty() ? (idx.size() == 1 ? sys.getOverlap(idx[0]) : sys.getOverlap(idx)) : q.size() == 1 ? sys.getOverlap(q[0]) : sys.getOverlap(q);
    }
    M o = b.B.adjoint() * e;
    std::string k = "overlap:" + str(mode > 1 && !art ? "wildcard" : q.empty() ? "index" : "state", d.size() > 8 ? ":rotated" : "");
    if (got.size() != o.rows()) { bad(k, str(got.size(), " overlaps, expected ", o.rows())); return; }
    for (long i = 0; i < o.rows(); ++i)
        if (!(std::abs(got[i] - o.row(i).squaredNorm()) <= 1e-9 * (1 + o.row(i).squaredNorm()))) { bad(k, str("overlap with vector ", i, " is ", got[i], ", expected ", o.row(i).squaredNorm())); return; }
    out().eval(hist + d + str(idx.size(), q.empty() ? "i" : "s", mode));
}
template <class S, class P, class Sys>
void Trial<S, P, Sys>::indices(Snap<Sys, State> const &b) {
    bool art = false;
    for (auto const &s : b.st) art = art || artificial(s);
    Eigen::MatrixXd w = b.B.cwiseAbs2();
    out().casebegin(hist + " indices");
    if (w.colwise().sum().minCoeff() > 0) {
        auto ms = sys.getMainStates();
        if ((long)ms.size() != b.B.cols()) { bad("mainstates:size", str(ms.size())); return; }
        for (long k = 0; k < b.B.cols(); ++k) {
            size_t i = 0;
            while (i < b.st.size() && !(b.st[i] == ms[(size_t)k])) ++i;
            if (i == b.st.size() || !(w((long)i, k) >= w.col(k).maxCoeff() - 1e-9)) { bad("mainstates", str("vector ", k)); return; }
        }
    }
    size_t i = (size_t)r.i(0, (long)b.st.size() - 1);
    if (sys.getStateIndex(b.st[i]) != i) { bad("stateindex", ""); return; }
    if (w.row((long)i).maxCoeff() > 0) {
        size_t k = sys.getBasisvectorIndex(b.st[i]);
        if ((long)k >= b.B.cols() || !(w((long)i, (long)k) >= w.row((long)i).maxCoeff() - 1e-9)) { bad("basisvectorindex", str("state ", i, " vector ", k)); return; }
    }
    std::vector<State> q;
    std::vector<size_t> qi;
    double f = r.b(.2) ? .9 : .15;
    for (size_t k = 0; k < b.st.size(); ++k)
        if (r.b(f)) { q.push_back(b.st[k]); qi.push_back(k); }
    if (!q.empty()) {
        if (!(sys.getStateIndex(q) == qi)) { bad("stateindices", ""); return; }
        std::vector<size_t> got;
        bool t = throws([&] { got = sys.getBasisvectorIndex(q); });
        if (t && (long)q.size() > b.B.cols()) ++refused;
        else if ((long)q.size() > b.B.cols()) { bad("basisvectorindices:too-many", str(q.size(), " states, ", b.B.cols(), " vectors")); return; }
        else if (!t) {
            Eigen::VectorXd tot = Eigen::VectorXd::Zero(w.cols());
            for (size_t k : qi) tot += w.row((long)k).transpose();
            std::vector<double> all(tot.data(), tot.data() + tot.size()), mine;
            std::set<size_t> uniq(got.begin(), got.end());
            if (got.size() != q.size() || uniq.size() != q.size() || (long)*uniq.rbegin() >= b.B.cols()) { bad("basisvectorindices:distinct", str(got.size(), " indices, ", uniq.size(), " distinct, ", q.size(), " states")); return; }
            for (size_t k : got) mine.push_back(tot[(long)k]);
            std::sort(all.rbegin(), all.rend());
            std::sort(mine.rbegin(), mine.rend());
            for (size_t k = 0; k < mine.size(); ++k)
                if (!(mine[k] >= all[k] - 1e-9)) { bad("basisvectorindices:overlap", str("overlap ", mine[k], ", available ", all[k])); return; }
            // each state gets the vector in which it dominates if that leaves no choice
            bool clear = true;
            for (size_t k : qi) clear = clear && w.row((long)k).maxCoeff() > .6 * w.row((long)k).sum() && w.row((long)k).maxCoeff() > .6;
            for (size_t k = 0; clear && k < qi.size(); ++k)
                if (!(w((long)qi[k], (long)got[k]) > .5)) { bad("basisvectorindices:assignment", str("state ", qi[k], " vector ", got[k])); return; }
        }
    }
    out().eval(hist + str(" indices ", qi.size()));
    // connections to a copy with rearranged vectors
    Sys other(sys);
    std::vector<size_t> perm;
    for (long k = 0; k < b.B.cols(); ++k)
        if (r.b(.9) || perm.empty()) perm.push_back((size_t)k);
    std::shuffle(perm.begin(), perm.end(), r.g);
    other.constrainBasisvectors(perm);
    if (r.b() && !art && fullmanifolds(b.st)) other.rotate(0, r.u(-.5, .5), 0);
    Snap<Sys, State> o(other);
    if (!(o.st == b.st)) return;
    ++connections;
    double th = r.u(.01, .9);
    auto con = sys.getConnections(other, th);
    Eigen::MatrixXd a = (b.B.adjoint() * o.B).cwiseAbs2();
    std::set<std::pair<size_t, size_t>> have;
    if (con[0].size() != con[1].size()) { bad("connections:size", ""); return; }
    for (size_t k = 0; k < con[0].size(); ++k) {
        size_t x = con[0][k], y = con[1][k];
        have.insert({x, y});
        if ((long)x >= a.rows() || (long)y >= a.cols() || !(a((long)x, (long)y) >= th - 1e-9) || !(a((long)x, (long)y) >= a.row((long)x).maxCoeff() - 1e-9) || !(a((long)x, (long)y) >= a.col((long)y).maxCoeff() - 1e-9)) { bad("connections:wrong", str(x, "-", y)); return; }
    }
    for (long x = 0; x < a.rows(); ++x) {
        int y;
        double m = a.row(x).maxCoeff(&y);
        if (m < th + 1e-6) continue;
        bool clear = true;
        for (long k = 0; k < a.cols(); ++k) clear = clear && (k == y || a(x, k) < m - 1e-6);
        for (long k = 0; k < a.rows(); ++k) clear = clear && (k == x || a(k, y) < m - 1e-6);
        if (clear && !have.count({(size_t)x, (size_t)y})) { bad("connections:missing", str(x, "-", y, " overlap ", m, " threshold ", th)); return; }
    }
}
template <class S, class P, class Sys>
void Trial<S, P, Sys>::step() {
    Snap<Sys, State> b(sys);
    if (!sm::finite(b.B) || !sm::finite(b.H)) return bad("not-finite", "");
    double ht = hs(b.H);
    bool complete = b.B.rows() == b.B.cols() && sm::maxabs(b.B.adjoint() * b.B - M::Identity(b.B.cols(), b.B.cols())) < 1e-9;
    bool ortho = sm::maxabs(b.B.adjoint() * b.B - M::Identity(b.B.cols(), b.B.cols())) < 1e-9;
    auto note = [&](std::string const &d) {
        hist += " " + d;
        ++ops;
        out().casebegin(hist);
        out().eval(hist, b.B.cols() > 1);
    };
    switch (r.i(0, 15)) {
    case 0:
    case 1: {
        double th = r.b(.12) ? std::pow(10, r.u(-8, -3)) : 0;
        note(str("diagonalize ", th));
        th ? sys.diagonalize(th) : sys.diagonalize();
        Snap<Sys, State> a(sys);
        if (!(a.st == b.st)) return bad("diagonalize:states", "");
        double off = sm::maxabs(a.H - M(a.H.diagonal().asDiagonal()));
        if (!(off <= 2e-12 * (1 + sm::maxabs(a.H)))) return bad("diagonalize:not-diagonal", str(off));
        auto e = sm::eigenvalues(b.H), g = sm::eigenvalues(a.H);
        if (e.size() != g.size()) return bad("diagonalize:size", str(g.size(), " levels, expected ", e.size()));
        for (size_t i = 0; i < e.size(); ++i)
            if (!(std::abs(e[i] - g[i]) <= 10 * ht)) return bad("diagonalize:spectrum", str(g[i], ", expected ", e[i]));
        // the operator in the state basis and the space are kept
        double slack = th * 4 * (double)b.B.cols();
        if (!same("diagonalize:operator", a.B * a.H * a.B.adjoint(), b.B * b.H * b.B.adjoint(), 10 * ht * (1 + b.B.cols()) + slack * sm::maxabs(b.H))) return;
        if (!same("diagonalize:space", a.B * a.B.adjoint(), b.B * b.B.adjoint(), 1e-9 + slack)) return;
        M V;
        double err;
        if (th || !transformation(b.B, a.B, V, err)) { known = false; return; }
        if (!same("diagonalize:vectors", a.B.adjoint() * a.B, V.adjoint() * (b.B.adjoint() * b.B) * V, 1e-7)) return;
        if (!same("diagonalize:unitary", V.adjoint() * V, M::Identity(V.cols(), V.cols()), 1e-6)) return;
        // what is not coupled is not mixed, even if it is degenerate
        {
            std::vector<int> set(b.H.rows());
            for (size_t i = 0; i < set.size(); ++i) set[i] = (int)i;
            for (bool changed = true; changed;) {
                changed = false;
                for (int i = 0; i < b.H.rows(); ++i)
                    for (int j = 0; j < b.H.cols(); ++j)
                        if (b.H(i, j) != 0. && set[i] != set[j]) set[i] = set[j] = std::min(set[i], set[j]), changed = true;
            }
            int sets = 0;
            for (size_t i = 0; i < set.size(); ++i) sets += set[i] == (int)i;
            out().count("uncoupled sets", sets);
            for (int k = 0; k < V.cols(); ++k) {
                std::map<int, double> w;
                for (int i = 0; i < V.rows(); ++i) w[set[i]] += std::norm(V(i, k));
                double most = 0, all = 0;
                for (auto const &x : w) most = std::max(most, x.second), all += x.second;
                if (all - most > 1e-9) return bad("diagonalize:mixed", str("vector ", k, " has ", most / all, " of one of ", sets, " sets"));
            }
        }
        full = full * V;
        break;
    }
    case 2: {
        note("canonicalize");
        sys.canonicalize();
        Snap<Sys, State> a(sys);
        if (!same("canonicalize:hamiltonian", a.H, b.B * b.H * b.B.adjoint(), 10 * ht * (1 + b.B.cols()))) return;
        if (!same("canonicalize:vectors", a.B, b.B * b.B.adjoint(), 1e-9)) return;
        if (!complete && r.b(.7)) { known = false; return; }
        full = full * b.B.adjoint();
        break;
    }
    case 3: {
        if (r.b(.6)) return;
        note("unitarize");
        bool twins = false; // identical vectors cannot be told apart
        for (long i = 0; i < b.B.cols(); ++i)
            for (long k = 0; k < i; ++k) twins = twins || sm::maxabs(b.B.col(i) - b.B.col(k)) < 1e-12;
        bool t = throws([&] { sys.unitarize(); });
        if (t && !twins) return bad("unitarize:refused", "");
        Snap<Sys, State> a(sys);
        if (t) {
            ++refused;
            if (!(a.st == b.st) || !same("refused-unitarize", a.B, b.B, 0)) bad("refused-unitarize", "");
            same("refused-unitarize", a.H, b.H, 0);
            return;
        }
        if (!same("unitarize:hamiltonian", a.H, b.H, 0)) return;
        if (!same("unitarize:vectors", a.B, M::Identity(b.B.cols(), b.B.cols()), 0)) return;
        std::set<State> u(a.st.begin(), a.st.end());
        if ((long)u.size() != b.B.cols() || (long)a.st.size() != b.B.cols()) return bad("unitarize:states", str(a.st.size(), " states, ", u.size(), " distinct"));
        for (auto const &s : a.st)
            if (!artificial(s)) return bad("unitarize:labels", "");
        st0 = a.st;
        full = a.B;
        isfixed = true;
        break;
    }
    case 4:
    case 5: {
        double al = cplx ? r.u(-3.1, 3.1) : 0, be = r.u(-3.1, 3.1), ga = cplx ? r.u(-3.1, 3.1) : 0;
        bool axes = r.b();
        bool art = false;
        for (auto const &s : b.st) art = art || artificial(s);
        if (art) {
            if (!isfixed) return;
            ++refused;
            if (!throws([&] { sys.rotate(al, be, ga); })) return bad("rotate:artificial", "");
            Snap<Sys, State> a(sys);
            if (!(a.st == b.st) || !same("refused-rotate", a.H, b.H, 0) || !same("refused-rotate", a.B, b.B, 0)) return bad("refused-rotate", "");
            return;
        }
        if (!fullmanifolds(b.st) || st0 != b.st) return;
        if (!cplx && axes && be < 0) return;
        note(str("rotate ", axes ? "axes " : "", al, " ", be, " ", ga));
        Rot rot{al, be, ga, {}};
        M R = rot.matrix(b.st);
        if (axes) {
            Eigen::Matrix3d m(Eigen::AngleAxisd(al, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(be, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(ga, Eigen::Vector3d::UnitZ()));
            double s1 = r.u(.3, 4), s2 = r.u(.3, 4);
            sys.rotate({{m(0, 2) * s1, m(1, 2) * s1, m(2, 2) * s1}}, {{m(0, 1) * s2, m(1, 1) * s2, m(2, 1) * s2}});
        } else
            sys.rotate(al, be, ga);
        ++rotations;
        Snap<Sys, State> a(sys);
        if (!(a.st == b.st)) return bad("rotate:states", "");
        if (!same("rotate:hamiltonian", a.H, b.H, 0)) return;
        // Euler angles found from axes may differ by a full turn, i.e. by a common sign
        M want = R * b.B;
        double sign = axes && sm::maxabs(want - a.B) > sm::maxabs(want + a.B) ? -1 : 1;
        if (!same(axes ? "rotate:axes" : "rotate:vectors", a.B, sign * want, 1e-8)) return;
        full = sign * R * full;
        break;
    }
    case 6: {
        std::vector<size_t> idx;
        double f = r.u(.3, 1);
        for (long k = 0; k < b.B.cols(); ++k)
            if (r.b(f) || idx.empty()) idx.push_back((size_t)k);
        if (r.b()) std::shuffle(idx.begin(), idx.end(), r.g);
        if (r.b(.2)) { // refused
            ++refused;
            if (r.b()) idx.push_back(idx[0]);
            else idx.push_back((size_t)b.B.cols() + (size_t)r.i(0, 3));
            note("refused constrain");
            if (!throws([&] { sys.constrainBasisvectors(idx); })) return bad("refused-constrain:accepted", "");
            Snap<Sys, State> a(sys);
            if (!(a.st == b.st)) return bad("refused-constrain:states", "");
            same("refused-constrain:hamiltonian", a.H, b.H, 0);
            same("refused-constrain:vectors", a.B, b.B, 0);
            return;
        }
        std::string d = "constrain";
        for (size_t k : idx) d += str(" ", k);
        note(d);
        M T = M::Zero(b.B.cols(), (long)idx.size());
        for (size_t k = 0; k < idx.size(); ++k) T((long)idx[k], (long)k) = 1;
        ++restrictions;
        sys.constrainBasisvectors(idx);
        Snap<Sys, State> a(sys);
        if (!(a.st == b.st)) return bad("constrain:states", "");
        if (!same("constrain:hamiltonian", a.H, T.adjoint() * b.H * T, 0)) return;
        if (!same("constrain:vectors", a.B, b.B * T, 0)) return;
        full = full * T;
        break;
    }
    case 7:
    case 8: { // restriction of the energies or of quantum numbers after the basis has been built
        double lo = -INF, hi = INF;
        std::set<int> ok;
        std::set<float> okf;
        int what = (int)r.i(-3, 3);
        bool art = false;
        for (auto const &s : b.st) art = art || artificial(s);
        if (art) what = -1;
        if (what < 0) {
            std::vector<double> e;
            for (long k = 0; k < b.H.rows(); ++k) e.push_back(b.H(k, k).real());
            double x = r.pick(e), y = r.pick(e);
            lo = std::min(x, y) - std::exp(r.u(-5, 4));
            hi = std::max(x, y) + std::exp(r.u(-5, 4));
            if (r.b(.2)) hi = INF;
            for (double z : e)
                if (std::abs(z - lo) < 1e-6 || std::abs(z - hi) < 1e-6) return;
        } else {
            State s = r.pick(b.st), t = r.pick(b.st);
            for (State const &u : {s, t}) numbers(u, what, ok, okf);
        }
        double norm = sysnorm;
        // expectation
        std::vector<size_t> keeprow, keepcol, keepfinal;
        for (size_t i = 0; i < b.st.size(); ++i)
            if (what < 0 || allowed(b.st[i], what, ok, okf)) keeprow.push_back(i);
        for (long k = 0; k < b.B.cols(); ++k) {
            double e = b.H(k, k).real(), q = 0;
            if (!(e > lo && e < hi)) continue;
            for (size_t i : keeprow) q += std::norm(b.B((long)i, k));
            if (std::abs(q - norm) < 1e-9 * norm) return;
            if (norm < 1e-12 && q > 0 && q < 1e-20) return; // rounding noise
            if (q > norm) keepcol.push_back((size_t)k);
        }
        for (size_t i : keeprow) {
            double q = 0;
            for (size_t k : keepcol) q += std::norm(b.B((long)i, (long)k));
            if (std::abs(q - norm) < 1e-9 * norm) return;
            if (norm < 1e-12 && q > 0 && q < 1e-20) return;
            if (q > norm) keepfinal.push_back(i);
            else if (q > 1e-20) truncated = true; // contributions of the state to the interaction may or may not be kept
        }
        if (keepcol.size() && keeprow.size() < b.st.size()) {
            for (size_t i = 0; i < b.st.size(); ++i)
                if (!std::count(keeprow.begin(), keeprow.end(), i))
                    for (size_t k : keepcol) truncated = truncated || std::norm(b.B((long)i, (long)k)) > 1e-20;
        }
        std::string d = what < 0 ? str("energy ", lo, "..", hi) : str("restrict ", what);
        for (int x : ok) d += str(" ", x);
        for (float x : okf) d += str(" ", x);
        note(d);
        ++restrictions;
        if (what < 0) sys.restrictEnergy(lo, hi);
        if (what == 0) sys.restrictN(ok);
        if (what == 1) sys.restrictL(ok);
        if (what == 2) sys.restrictJ(okf);
        if (what == 3) sys.restrictM(okf);
        if (keepcol.empty() || keepfinal.empty()) {
            ++refused;
            if (!throws([&] { sys.buildBasis(); })) bad("restrict:empty", "");
            else if (!throws([&] { sys.getNumBasisvectors(); }) || !throws([&] { sys.getHamiltonian(); })) bad("restrict:empty-filled", str(sys.getNumBasisvectors(), " vectors after the restrictions left none"));
            known = false;
            return;
        }
        std::string pd;
        bool follow = !isfixed && !truncated && !entryedited && !(saving && contained) && r.b(.3) && change<S>(r, p, sys, pd);
        if (follow) {
            hist += " " + pd;
            out().casebegin(hist);
        }
        Snap<Sys, State> a(sys);
        M T = M::Zero(b.B.cols(), (long)keepcol.size()), L = M::Zero((long)keepfinal.size(), b.B.rows());
        for (size_t k = 0; k < keepcol.size(); ++k) T((long)keepcol[k], (long)k) = 1;
        std::vector<State> st;
        for (size_t k = 0; k < keepfinal.size(); ++k) { L((long)k, (long)keepfinal[k]) = 1; st.push_back(b.st[keepfinal[k]]); }
        if (!(a.st == st)) return bad("restrict:states", str(a.st.size(), " states, expected ", st.size()));
        if (sys.getNumBasisvectors() != keepcol.size() || sys.getNumStates() != st.size()) return bad("restrict:size", str(sys.getNumBasisvectors(), " vectors, expected ", keepcol.size()));
        full = full * T;
        if (follow) {
            Snap<Sys, State> m(sys);
            m.B = L * b.B * T;
            m.H = T.adjoint() * b.H * T;
            contained = true;
            return check_param(m, a);
        }
        if (!same("restrict:hamiltonian", a.H, T.adjoint() * b.H * T, 0)) return;
        if (!same("restrict:vectors", a.B, L * b.B * T, 0)) return;
        break;
    }
    case 9: { // entries
        std::string k;
        M op = b.B * b.H * b.B.adjoint();
        ++entries;
        size_t i = (size_t)r.i(0, (long)b.st.size() - 1), j = r.b(.2) ? i : (size_t)r.i(0, (long)b.st.size() - 1);
        note(str("entry ", i, " ", j));
        cd got = sys.getHamiltonianEntry(b.st[i], b.st[j]);
        double tol = 10 * ht * (1 + b.B.cols());
        if (!(std::abs(got - op((long)i, (long)j)) <= tol)) return bad("entry:get", str(got, ", expected ", op((long)i, (long)j)));
        if (!complete || r.b(.5)) return;
        bool add = r.b();
        cd v(r.u(-1, 1) * sm::maxabs(op) * 1e-3, cplx && i != j ? r.u(-1, 1) * sm::maxabs(op) * 1e-3 : 0);
        S sv;
        if constexpr (cplx) sv = v;
        else sv = v.real();
        hist += add ? str(" add ", v) : str(" set ", v);
        out().casebegin(hist);
        add ? sys.addHamiltonianEntry(b.st[i], b.st[j], sv) : sys.setHamiltonianEntry(b.st[i], b.st[j], sv);
        if (add) v += op((long)i, (long)j);
        op((long)i, (long)j) = v;
        op((long)j, (long)i) = std::conj(v);
        Snap<Sys, State> a(sys);
        if (!same("entry:hermitian", a.H, a.H.adjoint(), tol)) return;
        if (!same(add ? "entry:add" : "entry:set", a.B * a.H * a.B.adjoint(), op, 4 * tol)) return;
        if (!same("entry:vectors", a.B, b.B, 0)) return;
        got = sys.getHamiltonianEntry(b.st[i], b.st[j]);
        if (!(std::abs(got - v) <= 4 * tol)) return bad("entry:read-back", str(got, ", expected ", v));
        entryedited = true;
        break;
    }
    case 10: return overlap(b);
    case 11: return indices(b);
    case 12: {
        if (r.b(.7) || !ortho) return;
        sys.diagonalize();
        Snap<Sys, State> d(sys);
        note("forget mixing");
        std::vector<long> main;
        bool clear = true;
        for (long k = 0; k < d.B.cols(); ++k) {
            int i;
            double m = d.B.col(k).cwiseAbs().maxCoeff(&i);
            if (std::abs(m - std::sqrt(.5)) < 1e-6) { known = false; return; }
            clear = clear && m > std::sqrt(.5);
            main.push_back(i);
        }
        if (throws([&] { sys.forgetStatemixing(); })) {
            ++refused;
            if (clear) return bad("forget:refused", "");
        } else if (!clear) return bad("forget:accepted", "");
        Snap<Sys, State> a(sys);
        M want = d.B;
        if (clear) {
            want.setZero();
            for (size_t k = 0; k < main.size(); ++k) want(main[k], (long)k) = 1;
        }
        same("forget:vectors", a.B, want, 0);
        same("forget:hamiltonian", a.H, d.H, 0);
        known = false;
        return;
    }
    default: { // change of a parameter
        if (entryedited || truncated) return;
        if ((saving || isfixed) && contained) {
            ++refused;
            P old = p;
            std::string d;
            hist += " refused";
            if (!throws([&] { change<S>(r, p, sys, d); })) return bad("refused-parameter:accepted", d);
            p = old;
            Snap<Sys, State> a(sys);
            same("refused-parameter:hamiltonian", a.H, b.H, 0);
            same("refused-parameter:vectors", a.B, b.B, 0);
            return;
        }
        if (isfixed) return;
        std::string d;
        change<S>(r, p, sys, d);
        note(d);
        contained = true;
        Snap<Sys, State> a(sys);
        check_param(b, a);
    }
    }
}

// Direct rotation of the low-energy space to the unperturbed one, from the projectors alone.
template <class S, class P, class Sys>
static void wolff(Rng &r, Sys &sys, P p, std::string c, bool saving, double norm) {
    using State = typename P::State;
    Sys sys0(sys);
    Snap<Sys, State> s(sys0);
    if (s.B.rows() != s.B.cols() || s.B.cols() < 3) return;
    std::string d;
    change<S>(r, p, sys, d);
    long k = r.i(1, std::min<long>(4, s.B.cols() - 1));
    // neighbouring levels
    std::vector<size_t> order((size_t)s.B.cols()), idx;
    for (size_t i = 0; i < order.size(); ++i) order[i] = i;
    std::sort(order.begin(), order.end(), [&](size_t x, size_t y) { return s.H((long)x, (long)x).real() < s.H((long)y, (long)y).real(); });
    long at = r.i(0, s.B.cols() - k);
    for (long i = 0; i < k; ++i) idx.push_back(order[(size_t)(at + i)]);
    sys0.constrainBasisvectors(idx);
    c += " Schrieffer-Wolff " + d;
    for (size_t i : idx) c += str(" ", i);
    bool few = r.b(.1);
    if (few) sys.constrainBasisvectors({0});
    bool uni = r.b(.1);
    if (uni) { sys0.unitarize(); c += " foreign"; }
    bool already = r.b();
    out().casebegin(c);
    if (already) sys.diagonalize();
    Sys copy(sys);
    copy.diagonalize();
    Snap<Sys, State> b(copy), u(sys0);
    if (uni || (few && k > 1)) {
        ++refused;
        if (!throws([&] { sys.applySchriefferWolffTransformation(sys0); })) out().violation("wolff:accepted", "", c);
        out().eval(c);
        return;
    }
    if (few) return;
    M low0 = u.B;
    Eigen::MatrixXd w = (b.B.adjoint() * low0).cwiseAbs2();
    std::vector<std::pair<double, long>> o;
    for (long i = 0; i < w.rows(); ++i) o.push_back({w.row(i).sum(), i});
    std::sort(o.rbegin(), o.rend());
    if (o[(size_t)k - 1].first - o[(size_t)k].first < 1e-4) return;
    M low(b.B.rows(), k);
    std::vector<double> e;
    for (long i = 0; i < k; ++i) { low.col(i) = b.B.col(o[(size_t)i].second); e.push_back(b.H(o[(size_t)i].second, o[(size_t)i].second).real()); }
    std::sort(e.begin(), e.end());
    Eigen::JacobiSVD<M> svd(low0.adjoint() * low);
    if (svd.singularValues().minCoeff() < .3) return;
    long n = b.B.rows();
    M Id = M::Identity(n, n), P0 = low0 * low0.adjoint(), Q = low * low.adjoint(), D = P0 - Q;
    Eigen::SelfAdjointEigenSolver<M> inv(Id - D * D);
    M U = (P0 * Q + (Id - P0) * (Id - Q)) * inv.operatorInverseSqrt();
    sys.applySchriefferWolffTransformation(sys0);
    ++schrieffer;
    Snap<Sys, State> a(sys);
    if (a.B.rows() != n || a.B.cols() != k) { out().violation("wolff:shape", str(a.B.rows(), "x", a.B.cols()), c); return; }
    double ht = 1e-9 * sm::maxabs(b.H) + 1e-9;
    M H = b.B * b.H * b.B.adjoint();
    if (!(sm::maxabs(a.B - U.adjoint() * low0) <= 1e-6)) out().violation("wolff:vectors", str(sm::maxabs(a.B - U.adjoint() * low0)), c);
    if (!(sm::maxabs(a.H - low0.adjoint() * U * H * U.adjoint() * low0) <= ht)) out().violation("wolff:hamiltonian", str(sm::maxabs(a.H - low0.adjoint() * U * H * U.adjoint() * low0)), c);
    auto g = sm::eigenvalues(a.H);
    for (size_t i = 0; i < e.size(); ++i)
        if (!(std::abs(g[i] - e[i]) <= ht)) { out().violation("wolff:spectrum", str(g[i], ", expected ", e[i]), c); break; }
    out().eval(c);
    // later parameters act in the space reached
    Trial<S, P, Sys> t(r, sys, p, saving, true, c);
    t.sysnorm = norm;
    t.run(r.i(0, 4));
}
template <class S>
static SystemOne<S> one(Rng &r, MatrixElementCache &cache, bool pair, std::string &c, bool saving, double &norm, bool &sectored) {
    std::string sp = r.pick(std::vector<std::string>{"Rb", "Cs", "Sr1", "Sr3", "Rb"});
    int n = 14 + (int)((seed() + sp.size() * 3) % 12), l0 = (int)r.i(0, 1), l1 = l0 + (pair || sp == "Sr3" ? (r.b(.8) ? 1 : 0) : (int)r.i(0, 2));
    if (pair && sp == "Sr3") l0 = l1 = r.b() ? 0 : 1;
    SystemOne<S> s = saving && !pair ? SystemOne<S>(sp, cache, true) : SystemOne<S>(sp, cache);
    int n1 = n + (pair ? 0 : (int)r.i(0, 1));
    s.restrictN(n, n1);
    s.restrictL(l0, l1);
    c += str(" ", sp, " n ", n, "..", n1, " l ", l0, "..", l1);
    norm = .05;
    if (r.b()) { norm = r.b() ? 1e-30 : .3; if (!pair) s.setMinimalNorm(norm); }
    sectored = false;
    if (pair && (l1 > 1 || r.b(.5)) ) { s.restrictM(spin(sp) == .5 ? -.5f : -1, spin(sp) == .5 ? .5f : 1); c += " m"; }
    if (!pair && r.b(.2)) { s.setConservedMomentaUnderRotation(spin(sp) == .5 ? std::set<float>{.5f, -.5f} : std::set<float>{0, 1}); c += " sector"; sectored = true; }
    if (!pair && r.b(.1)) { s.addStates(StateOne("ancilla")); c += " ancilla"; }
    return s;
}
template <class S>
static void trial(Rng &r, MatrixElementCache &cache) {
    constexpr bool cplx = std::is_same<S, std::complex<double>>::value;
    std::string c = cplx ? "complex" : "real";
    bool saving = r.b(.15), sectored;
    double norm;
    if (r.b(.6)) {
        if (saving) c += " saving";
        auto s = one<S>(r, cache, false, c, saving, norm, sectored);
        out().casebegin(c);
        guarded("one", c, [&] {
            sm::Fields f;
            std::vector<StateOne> st = s.getStates();
            if (st.size() > 90) return;
            ParamOne p{sm::One(st, 0), f};
            if (!sectored && r.b(.15)) return wolff<S>(r, s, p, c, saving, norm);
            bool start = r.b(.7);
            std::string d;
            if (start) { change<S>(r, p, s, d); c += " " + d; s.getHamiltonian(); }
            Trial<S, ParamOne, SystemOne<S>> t(r, s, p, saving, start, c);
            t.sysnorm = norm;
            try {
                t.run(r.i(2, 10));
            } catch (std::exception const &e) { out().violation("one:exception", e.what(), t.hist); }
        });
    } else {
        if (saving) c += " saving";
        double n1, n2;
        auto s1 = one<S>(r, cache, true, c, saving, n1, sectored);
        bool same = r.b(.6);
        SystemOne<S> s2 = same ? s1 : one<S>(r, cache, true, c, saving, n2, sectored);
        out().casebegin(c);
        guarded("two", c, [&] {
            sm::Fields f1, f2;
            SystemTwo<S> s = saving ? SystemTwo<S>(s1, s2, cache, true) : SystemTwo<S>(s1, s2, cache);
            norm = .05;
            if (r.b()) { norm = r.b() ? 1e-30 : .3; s.setMinimalNorm(norm); }
            sectored = false;
            if (r.b(.2)) { s.setConservedMomentaUnderRotation({0, 1}); c += " sector"; sectored = true; }
            else if (same && r.b(.2)) { s.setConservedParityUnderPermutation(r.b() ? EVEN : ODD); c += " permutation"; sectored = true; }
            std::vector<StateTwo> st;
            if (throws([&] { st = s.getStates(); })) { // an empty sector, which stays empty
                ++refused;
                if (!throws([&] { s.getNumBasisvectors(); })) out().violation("empty-filled", str(s.getNumBasisvectors(), " vectors in a sector without vectors"), c);
                return;
            }
            if (st.size() > 110) return;
            Pair m(st, 0);
            M H0 = m.single(f1, 0) + m.single(f2, 1);
            ParamTwo p{m, H0, Geo{}};
            if (!sectored && r.b(.15)) return wolff<S>(r, s, p, c, saving, norm);
            bool start = r.b(.7);
            std::string d;
            if (start) { change<S>(r, p, s, d); c += " " + d; s.getHamiltonian(); }
            Trial<S, ParamTwo, SystemTwo<S>> t(r, s, p, saving, start, c);
            t.sysnorm = norm;
            try {
                t.run(r.i(2, 10));
            } catch (std::exception const &e) { out().violation("two:exception", e.what(), t.hist); }
        });
    }
}
int main(int argc, char **argv) {
    long part = argc > 1 ? std::atol(argv[1]) : 0;
    MatrixElementCache cache;
    Rng r(17 + 100 * part);
    for (long it = 0; it < n(1000, 20000); ++it) r.b(.65) ? trial<std::complex<double>>(r, cache) : trial<double>(r, cache);
    out().count("operations", ops);
    out().count("parameter_changes", params);
    out().count("rotations", rotations);
    out().count("restrictions", restrictions);
    out().count("entries", entries);
    out().count("overlaps", overlaps);
    out().count("connections", connections);
    out().count("schrieffer_wolff", schrieffer);
    out().count("refused", refused);
    VH_MAIN_END();
}
