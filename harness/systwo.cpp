// C16: random histories of geometry changes on pair systems; after each step the Hamiltonian is compared with the one
// built from independent one-atom operators and derivatives of 1/r for the current geometry alone.
#include "pairmodel.hpp"
#include "MatrixElementCache.hpp"
#include "SystemOne.hpp"
#include "SystemTwo.hpp"
using namespace vh;

static long compared = 0, rejected = 0, refusedgeo = 0, diagonalised = 0, sectors = 0, gt = 0, surf = 0;
static double spin(std::string const &s) { return s == "Sr1" ? 0 : s == "Sr3" ? 1 : .5; }

struct Atom {
    std::string species;
    int n0, n1, l0, l1;
    std::set<float> m;
    sm::Fields f;
    bool art = false;
    std::string s() const {
        std::string r = str(species, " n ", n0, "..", n1, " l ", l0, "..", l1);
        for (float x : m) r += str(" m", x);
        if (art) r += " +ancilla";
        if (mixed()) r += " " + f.s();
        return r;
    }
    bool mixed() const { return f.E != std::array<double, 3>{{0, 0, 0}} || f.B != std::array<double, 3>{{0, 0, 0}}; }
};
static Atom atom(Rng &r) {
    Atom a;
    a.species = r.pick(std::vector<std::string>{"Rb", "Cs", "Sr1", "Sr3", "Rb", "Sr1"});
    a.n0 = 14 + (int)((seed() + a.species.size() * 3) % 12);
    bool half = spin(a.species) == .5;
    switch (r.i(0, 4)) {
    case 0: a.n1 = a.n0; a.l0 = 0; a.l1 = 1; break;
    case 1: a.n1 = a.n0; a.l0 = 0; a.l1 = 2; break;
    case 2: a.n1 = a.n0 + 1; a.l0 = 0; a.l1 = 1; break;
    case 3: a.n1 = a.n0; a.l0 = 1; a.l1 = 3; break;
    default: a.n1 = a.n0; a.l0 = 1; a.l1 = 2;
    }
    if (a.l1 > 1 || spin(a.species) == 1 || r.b(.3)) a.m = half ? (r.b() || a.l1 > 2 ? std::set<float>{-.5f, .5f} : std::set<float>{-1.5f, -.5f, .5f}) : spin(a.species) == 1 && a.l1 > 1 ? std::set<float>{0} : std::set<float>{-1, 0, 1};
    return a;
}
template <class S>
static SystemOne<S> build(Atom const &a, MatrixElementCache &c) {
    SystemOne<S> s(a.species, c);
    s.restrictN(a.n0, a.n1);
    s.restrictL(a.l0, a.l1);
    if (!a.m.empty()) s.restrictM(a.m);
    if (a.art) s.addStates(StateOne("ancilla"));
    s.setEfield(a.f.E);
    s.setBfield(a.f.B);
    return s;
}
static std::vector<double> levels(std::vector<StateOne> st, sm::Fields const &f) {
    sm::One o(std::move(st), 0);
    return sm::eigenvalues(sm::hamiltonian(o, f));
}
template <class S>
struct Mirror {
    SystemTwo<S> &sys;
    Geo g;
    sm::Fields f1, f2;
    Pair model;
    M H0;
    size_t ncols;
    bool ortho;
    std::string hist;
    Mirror(SystemTwo<S> &sys, sm::Fields f1, sm::Fields f2, int method, bool ortho, std::string c)
        : sys(sys), f1(f1), f2(f2), model(sys.getStates(), method), ncols(sys.getNumBasisvectors()), ortho(ortho), hist(std::move(c)) {
        H0 = model.single(f1, 0) + model.single(f2, 1);
    }
    void check(std::string const &when) {
        std::string c = hist + " | " + g.s();
        if (g.invalid()) {
            ++refusedgeo;
            if (!throws([&] { sys.getHamiltonian(); })) out().violation("invalid-geometry-accepted", "", c);
            out().eval(c + when);
            return;
        }
        M H = sm::dense<S>(sys.getHamiltonian()), B = sm::dense<S>(sys.getBasisvectors());
        size_t n = model.st.size();
        if (!(sys.getStates() == model.st)) { out().violation("states-changed:" + when, "", c); return; }
        if ((size_t)B.rows() != n || (size_t)B.cols() != ncols || H.rows() != B.cols() || H.cols() != B.cols()) { out().violation("shape:" + when, str(B.rows(), "x", B.cols(), " ", H.rows(), "x", H.cols()), c); return; }
        if (!sm::finite(H) || !sm::finite(B)) { out().violation("not-finite:" + when, "", c); return; }
        M V = model.interaction(g);
        double sc = sm::maxabs(V), e = sm::maxabs(H0), tol = 2e-6 * sc + 1e-10 * e;
        if (!(sm::maxabs(H - H.adjoint()) <= 1e-10 * sc + 1e-12 * e)) out().violation("hermitian:" + when, str(sm::maxabs(H - H.adjoint())), c);
        if (ortho && !(sm::maxabs(B.adjoint() * B - M::Identity(ncols, ncols)) <= 1e-9)) out().violation("orthonormal:" + when, str(sm::maxabs(B.adjoint() * B - M::Identity(ncols, ncols))), c);
        M want = B.adjoint() * (H0 + V) * B, diff = H - want;
        int i, j;
        double worst = diff.size() ? diff.cwiseAbs().maxCoeff(&i, &j) : 0;
        if (!(worst <= tol)) out().violation("hamiltonian:" + when + (g.green ? ":green" : g.R[0] != 0 ? ":angle" : ":axis"), str("entry (", i, ",", j, ") is ", H(i, j), ", expected ", want(i, j), ", largest interaction ", sc, ", tolerance ", tol), c);
        ++compared;
        if (g.green) ++gt;
        if (g.surface != INF) ++surf;
        out().eval(c + when, sc > 0);
    }
};
static double dist(Rng &r) { return std::exp(r.u(std::log(.4), std::log(8.))); }
template <class S>
static void history(Rng &r, MatrixElementCache &cache) {
    constexpr bool cplx = std::is_same<S, std::complex<double>>::value;
    Atom a = atom(r), b = r.b() ? a : atom(r);
    if (b.s() != a.s() && (a.l1 > 2 || b.l1 > 2)) b = a;
    auto field = [&](Atom &x) {
        if (r.b(.5)) x.f.E = {{r.u(-20, 20), cplx ? r.u(-20, 20) : 0, r.u(-20, 20)}};
        if (r.b(.3)) x.f.B = {{r.u(-200, 200), cplx ? r.u(-200, 200) : 0, r.u(-200, 200)}};
    };
    if (r.b(.35)) {
        bool same = a.s() == b.s();
        field(a);
        if (same && r.b()) b = a;
        else field(b);
    }
    bool mixed = a.mixed() || b.mixed();
    if (!mixed && r.b(.1)) a.art = true;
    bool saving = r.b(.2);
    std::string c = str(cplx ? "complex " : "real ", a.s(), " / ", b.s(), saving ? " saving" : "");
    SystemOne<S> s1 = build<S>(a, cache), s2 = build<S>(b, cache);
    SystemTwo<S> sys = saving ? SystemTwo<S>(s1, s2, cache, true) : SystemTwo<S>(s1, s2, cache);
    out().casebegin(c);
    guarded("history", c, [&] {
        sys.setMinimalNorm(1e-30);
        std::vector<double> e1 = levels(s1.getStates(), a.f), e2 = levels(s2.getStates(), b.f), es;
        size_t want = 0;
        for (double x : e1)
            for (double y : e2) es.push_back(x + y);
        std::sort(es.begin(), es.end());
        double lo = -INF, hi = INF;
        if (r.b(.5) || es.size() > 120) { // a window containing some of the pairs
            size_t i = (size_t)r.i(0, (long)es.size() - 1), w = (size_t)r.i(1, 100);
            double m = es[i] , x = es[std::min(es.size() - 1, i + w)];
            lo = m - r.u(.001, 50);
            hi = x + r.u(.001, 50);
            for (double e : es)
                if (std::abs(e - lo) < 1e-6 * std::abs(lo) / 1000 || std::abs(e - hi) < 1e-6 * std::abs(hi) / 1000) hi = INF, lo = -INF;
        }
        for (double e : es) want += e > lo && e < hi;
        if (want == 0 || want > 320) return;
        if (lo > -INF) { sys.restrictEnergy(lo, hi); c += str(" window ", lo, "..", hi); }
        bool ortho = true;
        bool select = lo == -INF && !mixed && r.b(.15);
        if (select) { // chosen pairs of one-atom basis vectors
            std::vector<std::array<size_t, 2>> idx, all;
            for (size_t i = 0; i < e1.size(); ++i)
                for (size_t j = 0; j < e2.size(); ++j)
                    if (r.b(.4) || idx.empty()) idx.push_back({{i, j}});
            std::shuffle(idx.begin(), idx.end(), r.g);
            sys.setOneAtomBasisvectors(idx);
            want = idx.size();
            c += str(" selected ", want);
        } else if (!mixed && lo == -INF && r.b(.15)) { // restriction of quantum numbers of the pair

            sys.restrictN(std::max(a.n0, b.n0), std::max(a.n0, b.n0)); sys.restrictL(std::max(a.l0, b.l0), std::min(a.l1, b.l1)); if (std::max(a.n0, b.n0) > std::min(a.n1, b.n1)) return;
            want = (size_t)-1;
        }
        if (r.b(.3)) { // refused symmetries leave no trace
            bool x = r.b();
            if (x) sys.setConservedMomentaUnderRotation({1});
            else sys.setConservedParityUnderReflection(EVEN);
            ++rejected;
            if (!throws([&] { x ? sys.setConservedParityUnderReflection(EVEN) : sys.setConservedMomentaUnderRotation({1, 2}); })) out().violation("refused-parameter-accepted:symmetry", "", c);
            if (x) sys.setConservedMomentaUnderRotation({ARB});
            else sys.setConservedParityUnderReflection(NA);
            c += " refused-symmetry";
        }
        if (r.b(.5)) sys.buildBasis();
        size_t nb = sys.getNumBasisvectors();
        if (nb == 0) return;
        if (want != (size_t)-1 && nb != want) out().violation("basis-size", str(nb, " basis vectors, expected ", want), c);
        Mirror<S> mir(sys, a.f, b.f, 0, ortho, c);
        bool built = false;
        long steps = r.i(2, 9);
        for (long k = 0; k < steps; ++k) {
            Geo ng = mir.g;
            std::string d;
            std::function<void()> act;
            bool param = true, reject = false;
            auto scaled = [&](double x) { ng.R = {{ng.R[0] / ng.distance * x, ng.R[1] / ng.distance * x, ng.R[2] / ng.distance * x}}; ng.distance = x; };
            switch (r.i(0, 13)) {
            case 0:
            case 1: { double x = dist(r); scaled(x); act = [&, x] { sys.setDistance(x); }; d = "distance"; break; }
            case 2:
            case 3: {
                double t = r.pick(std::vector<double>{0., M_PI / 2, M_PI / 4, M_PI, -M_PI / 3, r.u(-7, 7), r.u(0, 3.1)});
                ng.R = {{ng.distance * std::sin(t), 0, ng.distance * std::cos(t)}};
                act = [&, t] { sys.setAngle(t); };
                d = "angle";
                break;
            }
            case 4:
            case 5: {
                double x = dist(r);
                std::array<double, 3> v{{0, 0, x}};
                int w = (int)r.i(0, 5);
                if (w == 0) v = {{0, 0, -x}};
                if (w == 1) v = {{x, 0, 0}};
                if (w == 2 || (w > 3 && !cplx)) v = {{x * r.u(-1, 1), 0, x * r.u(-1, 1)}};
                else if (w > 3) { double t = r.u(0, 3.2), p = r.u(0, 6.3); v = {{x * std::sin(t) * std::cos(p), x * std::sin(t) * std::sin(p), x * std::cos(t)}}; if (r.b(.2)) v = {{0, x, 0}}; }
                ng.R = v;
                ng.distance = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
                if (v[1] != 0) ng.green = true;
                act = [&, v] { sys.setDistanceVector(v); };
                d = "vector";
                break;
            }
            case 6:
            case 7: ng.order = (unsigned)r.i(2, 6); if (r.b(.4)) ng.order = 4; if (r.b(.03)) ng.order = (unsigned)r.i(0, 1); act = [&, ng] { sys.setOrder(ng.order); }; d = "order"; break;
            case 8: ng.green = r.b(.7); reject = !ng.green && ng.surface != INF; act = [&, ng] { sys.enableGreenTensor(ng.green); }; d = "green"; break;
            case 9: {
                ng.surface = r.b(.25) ? INF : ng.distance == INF ? dist(r) * 3 : std::abs(ng.R[2]) / 2 * (r.b(.9) ? r.u(1.05, 3) : r.u(.1, .95)) + r.u(.1, 2);
                if (ng.surface != INF) ng.green = true;
                act = [&, ng] { sys.setSurfaceDistance(ng.surface); };
                d = "surface";
                break;
            }
            case 10:
                reject = true;
                param = false;
                switch (r.i(0, 3)) {
                case 0: act = [&] { sys.setConservedParityUnderPermutation(EVEN); }; break;
                case 1: act = [&] { sys.setConservedMomentaUnderRotation({1}); }; break;
                case 2: act = [&] { sys.setConservedMomentaUnderRotation({ARB, 1}); }; break;
                default: act = [&] { sys.setOneAtomBasisvectors({{{0, 0}}, {{0, 0}}}); };
                }
                d = "refuse";
                break;
            case 11: param = false; if (!mir.g.invalid()) act = [&] { sys.diagonalize(); ++diagonalised; }; d = "diag"; break;
            case 12: param = false; if (!mir.g.invalid()) act = [&] { sys.buildInteraction(); }; d = "inter"; break;
            default: param = false; if (!mir.g.invalid()) act = [&] { sys.buildHamiltonian(); }; d = "build"; break;
            }
            if (!act) continue;
            mir.hist += " " + std::string(param ? "set" : "") + d;
            out().casebegin(mir.hist + " | " + ng.s());
            if (param && saving && built) {
                ++rejected;
                if (!throws(act)) out().violation("saving-parameter-accepted", "", mir.hist);
            } else if (reject) {
                ++rejected;
                if (!throws(act)) out().violation("refused-parameter-accepted:" + d, "", mir.hist);
            } else {
                act();
                mir.g = ng;
                if ((d == "diag" || d == "build") && mir.hist.find("set") != std::string::npos) built = true;
            }
            if (r.b(.6)) {
                bool any = mir.hist.find("set") != std::string::npos;
                mir.check(any ? (mir.hist.find("diag") != std::string::npos ? "after-diagonalize" : "params") : "bare");
                if (any && !mir.g.invalid()) built = true;
            }
            if (d == "diag") {
                M H = sm::dense<S>(sys.getHamiltonian());
                double off = sm::maxabs(H - M(H.diagonal().asDiagonal()));
                if (!(off <= 2e-12 * (1 + sm::maxabs(H)))) out().violation("not-diagonal", str(off), mir.hist);
            }
        }
        mir.check("end");
    });
}
// Sectors of conserved symmetries together have the spectrum of the whole.
template <class S>
static void sector(Rng &r, MatrixElementCache &cache) {
    constexpr bool cplx = std::is_same<S, std::complex<double>>::value;
    Atom a = atom(r);
    if (a.m.size() == 3 && spin(a.species) == .5) a.m = {-.5f, .5f};
    if (a.l1 == 3) a.l1 = 2;
    // bit 0 permutation, 1 inversion, 2 reflection, 3 rotation
    int kind = (int)r.i(1, 15);
    if (!cplx && spin(a.species) == .5) kind &= ~4;
    if (kind == 0) return;
    bool perm = kind & 1, inv = kind & 2, refl = kind & 4, rot = kind & 8;
    Atom b = a;
    if (!perm && !inv && r.b(.4)) {
        b = atom(r);
        if (b.l1 > 1) b.l1 = 1, b.l0 = 0, b.n1 = b.n0;
        if (b.m.size() == 3 && spin(b.species) == .5) b.m = {-.5f, .5f};
        if ((refl || rot) && (spin(a.species) == .5) != (spin(b.species) == .5)) b = a; // total momenta are integers
        if (refl && !cplx && spin(b.species) == .5) b = a;
    }
    // fields that keep the symmetries
    auto field = [&](Atom &x) {
        if (!inv && r.b(.4)) x.f.E = {{rot ? 0 : r.u(-20, 20), rot || refl || !cplx ? 0 : r.u(-20, 20), r.u(-20, 20)}};
        if (r.b(.4)) x.f.B = {{rot || refl ? 0 : r.u(-200, 200), rot || !cplx ? 0 : r.u(-200, 200), refl ? 0 : r.u(-200, 200)}};
    };
    if (r.b(.5)) {
        field(a);
        if (perm || inv) b = a;
        else field(b);
    }
    double d = dist(r), ang = rot ? 0 : r.b() ? 0 : r.u(-3, 3);
    unsigned order = perm || ang != 0 ? 3 : (unsigned)r.i(3, 5);
    bool green = r.b(.3) && order < 5;
    if (ang != 0 && !perm && r.b()) order = 4, green = true;
    double surface = INF;
    if (!perm && !inv && order < 5 && r.b(.3)) surface = d * r.u(.6, 3), green = true;
    std::string c = str(cplx ? "complex " : "real ", a.s(), " / ", b.s(), " sectors", perm ? " permutation" : "", inv ? " inversion" : "", refl ? " reflection" : "", rot ? " rotation" : "", " d=", d, " angle=", ang, " order=", order, " green=", green, " surface=", surface);
    out().casebegin(c);
    std::string k = str(perm ? "p" : "", inv ? "i" : "", refl ? "r" : "", rot ? "m" : "");
    guarded("sectors", c, [&] {
        // one-atom systems whose basis vectors have the symmetries, even if levels are degenerate
        auto one = [&](Atom const &x) {
            SystemOne<S> plain = build<S>(x, cache);
            if (!refl && !(rot && x.mixed()) && r.b(.8)) return plain;
            std::set<float> ms;
            if (rot)
                for (auto const &st : SystemOne<S>(plain).getStates()) ms.insert(refl ? std::abs(st.getM()) : st.getM());
            else ms.insert(static_cast<float>(ARB));
            bool diag = rot || r.b();
            std::vector<SystemOne<S>> parts;
            for (float m : ms)
                for (parity_t f : refl ? std::vector<parity_t>{EVEN, ODD} : std::vector<parity_t>{NA}) {
                    SystemOne<S> e(plain);
                    if (rot) e.setConservedMomentaUnderRotation(refl && m != 0 ? std::set<float>{m, -m} : std::set<float>{m});
                    if (refl) e.setConservedParityUnderReflection(f);
                    try {
                        if (diag) e.diagonalize();
                        if (e.getNumBasisvectors() == 0) continue;
                    } catch (std::exception const &ex) {
                        if (std::string(ex.what()).find("no ") == std::string::npos) throw;
                        continue;
                    }
                    parts.push_back(e);
                }
            SystemOne<S> sum = parts[0];
            for (size_t i = 1; i < parts.size(); ++i) sum.add(parts[i]);
            return sum;
        };
        auto geometry = [&](SystemTwo<S> &s) {
            s.setMinimalNorm(1e-10);
            s.setDistance(d);
            s.setAngle(ang);
            s.setOrder(order);
            s.enableGreenTensor(green);
            if (surface != INF) s.setSurfaceDistance(surface);
        };
        SystemOne<S> p1 = build<S>(a, cache), p2 = build<S>(b, cache), s1 = one(a), s2 = (perm || inv) ? s1 : one(b);
        SystemTwo<S> whole(p1, p2, cache);
        geometry(whole);
        if (whole.getNumBasisvectors() > 200) return;
        M full = sm::dense<S>(whole.getHamiltonian());
        auto all = sm::eigenvalues(full);
        std::set<int> ms;
        for (auto const &s : whole.getStates()) ms.insert((int)std::lround(s.getM(0) + s.getM(1)));
        std::vector<double> got;
        std::vector<parity_t> both{EVEN, ODD}, none{NA};
        std::vector<std::set<int>> mom;
        if (!rot) mom.push_back({ARB});
        else
            for (int m : ms) {
                if (!refl) mom.push_back({m});
                else if (m >= 0) mom.push_back(m == 0 ? std::set<int>{0} : std::set<int>{m, -m});
            }
        SystemTwo<S> basis(s1, s2, cache);
        geometry(basis);
        std::vector<SystemTwo<S>> parts;
        for (parity_t p : perm ? both : none)
            for (parity_t i : inv ? both : none)
                for (parity_t f : refl ? both : none)
                    for (auto const &m : mom) {
                        SystemTwo<S> s(basis);
                        if (perm) s.setConservedParityUnderPermutation(p);
                        if (inv) s.setConservedParityUnderInversion(i);
                        if (rot) s.setConservedMomentaUnderRotation(m);
                        if (refl) s.setConservedParityUnderReflection(f);
                        M H, B;
                        try {
                            H = sm::dense<S>(s.getHamiltonian());
                            B = sm::dense<S>(s.getBasisvectors());
                        } catch (std::exception const &x) {
                            if (std::string(x.what()).find("no ") == std::string::npos) throw;
                            continue;
                        }
                        std::string cs = c + str(" sector p", p, " i", i, " r", f, rot ? str(" m", *m.rbegin()) : "");
                        if (!(sm::maxabs(B.adjoint() * B - M::Identity(B.cols(), B.cols())) <= 1e-9)) out().violation("sector-orthonormal:" + k, str(sm::maxabs(B.adjoint() * B - M::Identity(B.cols(), B.cols()))), cs);
                        Pair model(s.getStates(), 0);
                        Geo g;
                        g.R = {{d * std::sin(ang), 0, d * std::cos(ang)}};
                        g.distance = d;
                        g.order = order;
                        g.surface = surface;
                        M V = model.interaction(g), H0 = model.single(a.f, 0) + model.single(b.f, 1), want = B.adjoint() * (H0 + V) * B;
                        double diff = sm::maxabs(want - H), tol = 2e-6 * sm::maxabs(V) + 1e-10 * sm::maxabs(H0);
                        if (!(diff <= tol)) out().violation("sector-hamiltonian:" + k, str("differs by ", diff, ", largest interaction ", sm::maxabs(V)), cs);
                        auto v = sm::eigenvalues(H);
                        got.insert(got.end(), v.begin(), v.end());
                        out().eval(cs);
                        if (r.b(.5)) parts.push_back(s);
                    }
        std::sort(got.begin(), got.end());
        if (got.size() != all.size()) out().violation("sectors-size:" + k, str(got.size(), " levels in the sectors, ", all.size(), " without symmetries"), c);
        else
            for (size_t i = 0; i < all.size(); ++i)
                if (!(std::abs(all[i] - got[i]) <= 1e-7 + 2e-10 * std::abs(all[0]))) { out().violation("sectors-spectrum:" + k, str("level ", i, ": ", got[i], " in the sectors, ", all[i], " without symmetries"), c); break; }
        // systems of several sectors can be combined, and the result follows the geometry
        if (parts.size() >= 2) {
            SystemTwo<S> sum = parts[0];
            size_t cols = sum.getNumBasisvectors();
            // systems that do not fit are refused and leave no trace
            for (int w = 0; w < 3; ++w) {
                SystemTwo<S> o = w == 2 ? parts[0] : parts[1];
                if (w == 0) o.setDistance(d * 1.5);
                if (w == 1) o.setSurfaceDistance(surface == INF ? d : surface * 1.5);
                if (w < 2) { (void)sum.getHamiltonian(); if (throws([&] { o.getHamiltonian(); })) continue; }
                if (!throws([&] { sum.add(o); })) { out().violation(str("misfit-added:", w), "", c); break; }
                ++rejected;
            }
            for (size_t i = 1; i < parts.size(); ++i) { cols += parts[i].getNumBasisvectors(); sum.add(parts[i]); }
            Geo g;
            double dn = dist(r);
            sum.setDistance(dn);
            if (surface != INF) sum.setSurfaceDistance(dn * surface / d);
            g.R = {{dn * std::sin(ang), 0, dn * std::cos(ang)}};
            g.distance = dn;
            g.order = order;
            if (surface != INF) g.surface = dn * surface / d;
            M H = sm::dense<S>(sum.getHamiltonian()), B = sm::dense<S>(sum.getBasisvectors());
            Pair model(sum.getStates(), 0);
            M V = model.interaction(g), H0 = model.single(a.f, 0) + model.single(b.f, 1);
            if ((size_t)B.cols() != cols) out().violation("combined-size:" + k, str(B.cols(), " vectors, expected ", cols), c);
            else {
                double diff = sm::maxabs(B.adjoint() * (H0 + V) * B - H);
                if (!(diff <= 2e-6 * sm::maxabs(V) + 1e-10 * sm::maxabs(H0))) out().violation("combined-hamiltonian:" + k, str("differs by ", diff, ", largest interaction ", sm::maxabs(V)), c);
            }
            out().eval(c + "combined");
        }
        ++sectors;
    });
}
// Symmetries that the one-atom bases do not have: nothing is promised except that memory stays intact.
template <class S>
static void misfit(Rng &r, MatrixElementCache &cache) {
    Atom a = atom(r), b = atom(r);
    if (a.l1 == 3) a.l1 = 2;
    if (b.l1 == 3) b.l1 = 2;
    b.species = a.species;
    b.n0 = a.n0;
    b.n1 = std::max(b.n0, std::min(b.n1, b.n0 + 1));
    bool half = spin(a.species) == .5;
    for (Atom *x : {&a, &b}) x->m = half ? (r.b() ? std::set<float>{.5f} : std::set<float>{-1.5f, .5f}) : (r.b() ? std::set<float>{1} : std::set<float>{-1, 0});
    std::string c = "misfit " + a.s() + " / " + b.s();
    out().casebegin(c);
    try {
        SystemOne<S> s1 = build<S>(a, cache), s2 = build<S>(b, cache);
        SystemTwo<S> s(s1, s2, cache);
        if (r.b()) s.setConservedParityUnderReflection(r.b() ? EVEN : ODD);
        if (r.b(.3)) s.setConservedParityUnderInversion(r.b() ? EVEN : ODD);
        else s.setConservedParityUnderPermutation(r.b() ? EVEN : ODD);
        s.setDistance(1);
        s.getHamiltonian();
    } catch (std::exception const &) {
    }
    out().eval(c);
}
int main(int argc, char **argv) {
    long part = argc > 1 ? std::atol(argv[1]) : 0;
    MatrixElementCache cache;
    Rng r(16 + 100 * part);
    for (long it = 0; it < n(400, 6000); ++it) r.b(.6) ? history<std::complex<double>>(r, cache) : history<double>(r, cache);
    for (long it = 0; it < n(150, 2500); ++it) r.b(.7) ? sector<std::complex<double>>(r, cache) : sector<double>(r, cache);
    for (long it = 0; it < n(10, 100); ++it) r.b() ? misfit<std::complex<double>>(r, cache) : misfit<double>(r, cache);
    out().count("hamiltonians_compared", compared);
    out().count("refused_parameters", rejected);
    out().count("refused_geometries", refusedgeo);
    out().count("green_tensor_hamiltonians", gt);
    out().count("surface_hamiltonians", surf);
    out().count("diagonalisations", diagonalised);
    out().count("sector_decompositions", sectors);
    VH_MAIN_END();
}
