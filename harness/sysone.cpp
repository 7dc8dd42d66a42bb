// C15: random histories of parameter changes on one-atom systems; after each step the Hamiltonian is compared with
// the one built from independent matrix elements for the current parameters alone.
#include "sysmodel.hpp"
#include "MatrixElementCache.hpp"
#include "SystemOne.hpp"
using namespace vh;
using sm::M;

static double spin(std::string const &s) { return s == "Sr1" ? 0 : s == "Sr3" ? 1 : .5; }
static long compared = 0, rejected = 0, diagonalised = 0, sectors = 0;

struct Setup {
    std::string species;
    int n0, n1, l0, l1;
    std::set<float> j, m;
    int emode = 0, art = 0;
    bool whittaker = false;
    std::string s() const {
        std::string r = str(species, " n ", n0, "..", n1, " l ", l0, "..", l1);
        for (float x : j) r += str(" j", x);
        for (float x : m) r += str(" m", x);
        return r + str(" e", emode, " a", art, whittaker ? " whittaker" : "");
    }
};
static Setup setup(Rng &r, bool big = false) {
    Setup s;
    std::vector<std::string> sp = {"Rb", "Cs", "K", "Sr1", "Sr3", "Rb", "Sr3"};
    s.species = r.pick(sp);
    s.n0 = 11 + (int)((seed() + s.species.size() * 3 + r.i(0, thorough() ? 19 : 1) * 5) % 20); // few levels per seed: radial integrals are expensive
    s.n1 = s.n0 + (int)r.i(0, 2);
    s.l0 = 0;
    s.l1 = (int)r.i(1, s.n1 - s.n0 == 2 && !big ? 2 : 3);
    if (r.b(.2)) s.l0 = 1;
    if (r.b(.15)) s.j = {.5f, 1.5f, 2.5f};
    if (r.b(.15) && spin(s.species) != .5) s.j = {1, 2};
    if (spin(s.species) == .5) {
        if (s.j == std::set<float>{1, 2}) s.j.clear();
        if (r.b(.25)) s.m = r.b() ? std::set<float>{-.5f, .5f} : std::set<float>{-1.5f, -.5f, .5f, 1.5f};
    } else {
        if (s.j.count(.5f)) s.j.clear();
        if (r.b(.25)) s.m = r.b() ? std::set<float>{0} : std::set<float>{-1, 0, 1};
    }
    if (r.b(.2)) s.emode = (int)r.i(1, 2);
    if (r.b(.2)) s.art = (int)r.i(1, 3);
    s.whittaker = r.b(.15);
    return s;
}
template <class S>
static void prepare(SystemOne<S> &sys, Setup const &s) {
    sys.restrictN(s.n0, s.n1);
    sys.restrictL(s.l0, s.l1);
    if (!s.j.empty()) sys.restrictJ(s.j);
    if (!s.m.empty()) sys.restrictM(s.m);
    if (s.emode) {
        double sp = spin(s.species);
        double a = sm::energy(StateOne(s.species, s.n0, s.l1, (float)(s.l1 + sp), (float)sp)), b = sm::energy(StateOne(s.species, s.n1, s.l0, (float)(s.l0 + sp), (float)sp));
        double lo = std::min(a, b) - 1, hi = std::max(a, b) + 1;
        if (s.emode == 1) sys.restrictEnergy(lo, hi);
        else sys.restrictEnergy(std::min(a, b) - 1e5, hi);
    }
    if (s.art & 1) sys.addStates(StateOne("ancilla"));
    if (s.art & 2) {
        double sp = spin(s.species);
        for (double m = -2 - sp; m <= 2 + sp + .1; ++m) sys.addStates(StateOne(s.species, s.n1 + 3, 2, (float)(2 + sp), (float)m));
    }
}
template <class S>
struct Mirror {
    SystemOne<S> &sys;
    sm::Fields f;
    sm::One model;
    size_t ncols;
    std::string hist;
    Mirror(SystemOne<S> &sys, int method, std::string c) : sys(sys), model(sys.getStates(), method), ncols(sys.getNumBasisvectors()), hist(std::move(c)) {}
    void check(std::string const &when) {
        M H = sm::dense<S>(sys.getHamiltonian()), B = sm::dense<S>(sys.getBasisvectors());
        size_t n = model.st.size();
        std::string c = hist + " | " + f.s();
        auto st = sys.getStates();
        if (st.size() != n || !(st == model.st)) { out().violation("states-changed:" + when, str(st.size(), " states, expected ", n), c); return; }
        if ((size_t)B.rows() != n || (size_t)B.cols() != ncols || H.rows() != B.cols() || H.cols() != B.cols()) { out().violation("shape:" + when, str(B.rows(), "x", B.cols(), " ", H.rows(), "x", H.cols()), c); return; }
        double sc = 0;
        M full = sm::hamiltonian(model, f, &sc);
        double tol = 2e-6 * sc + 1e-9 * sm::maxabs(full);
        if (!sm::finite(H) || !sm::finite(B)) { out().violation("not-finite:" + when, "", c); return; }
        if (!(sm::maxabs(H - H.adjoint()) <= 1e-10 * (sc + 1e-3 * sm::maxabs(full)))) out().violation("hermitian:" + when, str(sm::maxabs(H - H.adjoint())), c);
        if (!(sm::maxabs(B.adjoint() * B - M::Identity(ncols, ncols)) <= 1e-9)) out().violation("orthonormal:" + when, str(sm::maxabs(B.adjoint() * B - M::Identity(ncols, ncols))), c);
        M want = B.adjoint() * full * B;
        M diff = H - want;
        int i, j;
        double worst = diff.size() ? diff.cwiseAbs().maxCoeff(&i, &j) : 0;
        if (!(worst <= tol)) out().violation("hamiltonian:" + when, str("entry (", i, ",", j, ") is ", H(i, j), ", expected ", want(i, j), ", tolerance ", tol), c);
        ++compared;
        out().eval(c + when, sc > 0);
    }
};
static std::array<double, 3> rotate_zyz(std::array<double, 3> v, double al, double be, double ga) { // transpose of Rz(al) Ry(be) Rz(ga)
    auto rz = [](std::array<double, 3> v, double t) { return std::array<double, 3>{std::cos(t) * v[0] - std::sin(t) * v[1], std::sin(t) * v[0] + std::cos(t) * v[1], v[2]}; };
    auto ry = [](std::array<double, 3> v, double t) { return std::array<double, 3>{std::cos(t) * v[0] + std::sin(t) * v[2], v[1], -std::sin(t) * v[0] + std::cos(t) * v[2]}; };
    return rz(ry(rz(v, -al), -be), -ga);
}
template <class S>
static void history(Rng &r, MatrixElementCache &c0, MatrixElementCache &cw) {
    constexpr bool cplx = std::is_same<S, std::complex<double>>::value;
    Setup st = setup(r);
    bool saving = r.b(.25);
    parity_t refl = NA;
    // reflection symmetry needs complex coefficients for half-integer spins
    if (st.art == 0 && r.b(.25) && (cplx || spin(st.species) != .5)) refl = r.b() ? EVEN : ODD;
    std::string c = str(cplx ? "complex " : "real ", st.s(), saving ? " saving" : "", refl == NA ? "" : refl == EVEN ? " even" : " odd");
    MatrixElementCache &cache = st.whittaker ? cw : c0;
    SystemOne<S> sys = saving ? SystemOne<S>(st.species, cache, true) : SystemOne<S>(st.species, cache);
    out().casebegin(c);
    guarded("prepare", c, [&] {
        prepare(sys, st);
        if (r.b(.3)) { // refused symmetries leave no trace
            bool x = r.b();
            float m = spin(st.species) == .5 ? .5f : 1;
            if (x) sys.setConservedMomentaUnderRotation({m});
            else sys.setConservedParityUnderReflection(EVEN);
            ++rejected;
            if (!throws([&] { x ? sys.setConservedParityUnderReflection(EVEN) : sys.setConservedMomentaUnderRotation({m}); })) out().violation("refused-symmetry-accepted", "", c);
            c += " refused-symmetry";
            if (x) sys.setConservedMomentaUnderRotation({static_cast<float>(ARB)});
            else sys.setConservedParityUnderReflection(NA);
        }
        if (refl != NA) sys.setConservedParityUnderReflection(refl);
        if (r.b(.3) && st.m.empty() && refl == NA) { std::set<float> m; for (double x = -3 + (spin(st.species) == .5 ? .5 : 0); x <= 3; ++x) m.insert((float)x); sys.setConservedMomentaUnderRotation(m); }
        sys.buildBasis();
    });
    if (sys.getStatesMultiIndex().empty()) return;
    guarded("history", c, [&] {
        Mirror<S> mir(sys, st.whittaker ? 1 : 0, c);
        bool built = false; // an interaction is contained
        auto F = [&](double scale) {
            std::array<double, 3> f{{0, 0, 0}};
            int k = (int)r.i(0, 6);
            double a = scale * std::exp(r.u(-5, 1));
            if (k <= 1) f[2] = a * (r.b() ? 1 : -1);
            else if (k == 2) f[0] = a;
            else if (k == 3 && cplx) f[1] = a;
            else if (k == 4) f = {{a, 0, -a * r.u()}};
            else if (k == 5) f = {{a * r.normal(), cplx ? a * r.normal() : 0, a * r.normal()}};
            return f;
        };
        long steps = r.i(3, 12);
        for (long k = 0; k < steps; ++k) {
            sm::Fields nf = mir.f;
            std::string d;
            std::function<void()> act;
            bool param = true, reject = false;
            switch (r.i(0, 13)) {
            case 0:
            case 1: nf.E = F(1000. / st.n0); act = [&, nf] { sys.setEfield(nf.E); }; d = "E"; break;
            case 2:
            case 3: nf.B = F(3e5 / st.n0); act = [&, nf] { sys.setBfield(nf.B); }; d = "B"; break;
            case 4: nf.dia = r.b(); act = [&, nf] { sys.enableDiamagnetism(nf.dia); }; d = "dia"; break;
            case 5: nf.charge = (int)r.i(-1, 2); act = [&, nf] { sys.setIonCharge(nf.charge); }; d = "charge"; break;
            case 6: nf.order = (unsigned)r.i(0, 3); act = [&, nf] { sys.setRydIonOrder(nf.order); }; d = "order"; break;
            case 7: nf.distance = r.u(2, 20); act = [&, nf] { sys.setRydIonDistance(nf.distance); }; d = "distance"; break;
            case 8: { // fields given in a rotated frame
                auto f = F(1000. / st.n0);
                bool b = r.b();
                double al = cplx ? r.u(-3, 3) : 0, be = r.u(-3, 3), ga = cplx ? r.u(-3, 3) : 0;
                if (b) f = F(3e5 / st.n0);
                auto g = rotate_zyz(f, al, be, ga);
                if (!cplx && std::abs(g[1]) > 0) { param = false; break; }
                (b ? nf.B : nf.E) = g;
                act = [&, f, b, al, be, ga] { b ? sys.setBfield(f, al, be, ga) : sys.setEfield(f, al, be, ga); };
                d = b ? "Beuler" : "Eeuler";
                break;
            }
            case 9: { // the frame given by its axes
                auto f = F(1000. / st.n0);
                double be = r.u(-3, 3);
                bool b = r.b();
                std::array<double, 3> z{{std::sin(be), 0, std::cos(be)}}, y{{0, 1, 0}};
                auto g = rotate_zyz(f, 0, be, 0);
                (b ? nf.B : nf.E) = g;
                act = [&, f, b, z, y] { b ? sys.setBfield(f, z, y) : sys.setEfield(f, z, y); };
                d = b ? "Baxes" : "Eaxes";
                break;
            }
            case 10: // refused parameters
                param = false;
                if (!cplx) {
                    auto f = F(100);
                    f[1] = r.u(1, 5);
                    bool b = r.b();
                    reject = true;
                    act = [&, f, b] { b ? sys.setBfield(f) : sys.setEfield(f); };
                    d = b ? "B-y" : "E-y";
                } else {
                    reject = true;
                    int which = (int)r.i(0, 2);
                    act = [&, which] {
                        if (which == 0) sys.setConservedParityUnderReflection(EVEN);
                        if (which == 1) sys.setConservedMomentaUnderRotation({.5f});
                        if (which == 2) sys.setEfield({{1, 0, 0}}, {{0, 0, 1}}, {{0, 1, 1}}); // axes are not orthogonal
                    };
                    d = str("refuse", which);
                }
                break;
            case 11: param = false; act = [&] { sys.diagonalize(); ++diagonalised; }; d = "diag"; built = built || mir.hist.find("set") != std::string::npos; break;
            case 12: param = false; act = [&] { sys.buildInteraction(); }; d = "inter"; break;
            default: param = false; act = [&] { sys.buildHamiltonian(); }; d = "build"; built = built || mir.hist.find("set") != std::string::npos; break;
            }
            if (!act) continue;
            mir.hist += " " + std::string(param ? "set" : "") + d;
            out().casebegin(mir.hist);
            if (reject) {
                ++rejected;
                if (!throws(act)) out().violation("refused-parameter-accepted:" + d, "", mir.hist);
            } else if (param && saving && built) {
                ++rejected;
                if (!throws(act)) out().violation("saving-parameter-accepted", "", mir.hist);
            } else {
                act();
                mir.f = nf;
            }
            if (r.b(.6)) {
                bool any = mir.hist.find("set") != std::string::npos;
                mir.check(any ? (mir.hist.find("diag") != std::string::npos ? "after-diagonalize" : "params") : "bare");
                built = built || any;
            }
            if (d == "diag") {
                M H = sm::dense<S>(sys.getHamiltonian());
                double off = sm::maxabs(H - M(H.diagonal().asDiagonal()));
                if (!(off <= 2e-12 * (1 + sm::maxabs(H)))) out().violation("not-diagonal", str(off), mir.hist);
            }
        }
        mir.check("end");
    });
}
// Sectors of a conserved symmetry together have the spectrum of the whole.
template <class S>
static void sector(Rng &r, MatrixElementCache &cache) {
    constexpr bool cplx = std::is_same<S, std::complex<double>>::value;
    Setup st = setup(r);
    st.art = 0;
    st.whittaker = false;
    if (r.b(.7)) st.m.clear();
    bool rot = r.b();
    bool both = r.b(.3);
    if (both) rot = true;
    if ((!rot || both) && !cplx && spin(st.species) == .5) return;
    sm::Fields f;
    double e = 1000. / st.n0 * r.u(), b = 3e5 / st.n0 * r.u();
    if (both) {
        f.E = {{0, 0, e}};
    } else if (rot) {
        f.E = {{0, 0, e}};
        f.B = {{0, 0, b}};
    } else {
        f.E = {{e * r.u(-1, 1), 0, e * r.u(-1, 1)}};
        if (cplx && r.b()) f.B = {{0, b, 0}};
    }
    if (r.b(.4)) { f.charge = 1; f.order = (unsigned)r.i(1, 3); f.distance = r.u(3, 10); }
    std::string c = str(cplx ? "complex " : "real ", st.s(), " sectors of ", both ? "rotation and reflection " : rot ? "rotation " : "reflection ", f.s());
    out().casebegin(c);
    guarded("sectors", c, [&] {
        auto make = [&](std::function<void(SystemOne<S> &)> sym) {
            SystemOne<S> s(st.species, cache);
            prepare(s, st);
            sym(s);
            s.setEfield(f.E);
            s.setBfield(f.B);
            s.setIonCharge(f.charge);
            s.setRydIonOrder(f.order);
            s.setRydIonDistance(f.distance);
            return s;
        };
        auto spec = [](SystemOne<S> &s) { return sm::eigenvalues(sm::dense<S>(s.getHamiltonian())); };
        auto whole = make([](SystemOne<S> &) {});
        auto all = spec(whole);
        std::set<float> ms;
        for (auto const &s : whole.getStates()) ms.insert(s.getM());
        std::vector<double> got;
        std::vector<SystemOne<S>> parts;
        auto add = [&](std::function<void(SystemOne<S> &)> sym) {
            auto s = make(sym);
            std::vector<double> v;
            try {
                v = spec(s);
            } catch (std::exception const &x) {
                if (std::string(x.what()).find("no states") == std::string::npos && std::string(x.what()).find("no vectors") == std::string::npos) throw;
                if (!throws([&] { s.getNumBasisvectors(); }) || !throws([&] { spec(s); })) out().violation("empty-filled", str("a basis without vectors has ", s.getNumBasisvectors(), " when it is requested again"), c);
            }
            got.insert(got.end(), v.begin(), v.end());
            if (!v.empty() && r.b(.7)) parts.push_back(s);
        };
        if (both) {
            for (float m : ms)
                if (m >= 0)
                    for (parity_t p : {EVEN, ODD}) add([&](SystemOne<S> &s) { s.setConservedMomentaUnderRotation(m == 0 ? std::set<float>{0} : std::set<float>{m, -m}); s.setConservedParityUnderReflection(p); });
        } else if (rot)
            for (float m : ms) add([&](SystemOne<S> &s) { s.setConservedMomentaUnderRotation({m}); });
        else
            for (parity_t p : {EVEN, ODD}) add([&](SystemOne<S> &s) { s.setConservedParityUnderReflection(p); });
        std::sort(got.begin(), got.end());
        std::string k = both ? "both" : rot ? "rotation" : "reflection";
        if (got.size() != all.size()) out().violation("sectors-size:" + k, str(got.size(), " levels in the sectors, ", all.size(), " without symmetries"), c);
        else
            for (size_t i = 0; i < all.size(); ++i)
                if (!(std::abs(all[i] - got[i]) <= 1e-7 + 1e-10 * std::abs(all[0]))) { out().violation("sectors-spectrum:" + k, str("level ", i, ": ", got[i], " in the sectors, ", all[i], " without symmetries"), c); break; }
        ++sectors;
        out().eval(c);
        if (parts.size() < 2) return;
        // sectors can be combined; the result follows later changes of the fields, misfits are refused without a trace
        SystemOne<S> sum = parts[0];
        size_t cols = sum.getNumBasisvectors();
        for (int w = 0; w < 4; ++w) {
            SystemOne<S> o = w == 3 ? parts[0] : parts[1];
            if (w == 0) o.setEfield({{0, 0, f.E[2] + 1}});
            if (w == 1) o.setIonCharge(f.charge + 1);
            if (w == 2) o.setRydIonOrder(f.order + 1);
            if (w < 3) o.getHamiltonian();
            if (!throws([&] { sum.add(o); })) { out().violation(str("misfit-added:", w), "", c); return; }
            ++rejected;
        }
        for (size_t i = 1; i < parts.size(); ++i) { cols += parts[i].getNumBasisvectors(); sum.add(parts[i]); }
        if (sum.getNumBasisvectors() != cols) out().violation("combined-size", str(sum.getNumBasisvectors(), " vectors, expected ", cols), c);
        Mirror<S> mir(sum, 0, c + " combined");
        mir.f = f;
        mir.check("combined");
        f.E[2] += r.u(-1, 1) * e;
        if (rot && !both) f.B[2] += b;
        sum.setEfield(f.E);
        sum.setBfield(f.B);
        mir.f = f;
        mir.hist += " setfields";
        mir.check("combined-fields");
        sum.diagonalize();
        mir.check("combined-diagonalized");
    });
}
int main(int argc, char **argv) {
    long part = argc > 1 ? std::atol(argv[1]) : 0;
    MatrixElementCache c0, cw;
    cw.setMethod(WHITTAKER);
    Rng r(15 + 100 * part);
    for (long it = 0; it < n(200, 3000); ++it) r.b(.65) ? history<std::complex<double>>(r, c0, cw) : history<double>(r, c0, cw);
    for (long it = 0; it < n(60, 800); ++it) r.b(.7) ? sector<std::complex<double>>(r, c0) : sector<double>(r, c0);
    out().count("hamiltonians_compared", compared);
    out().count("refused_parameters", rejected);
    out().count("diagonalisations", diagonalised);
    out().count("sector_decompositions", sectors);
    VH_MAIN_END();
}
