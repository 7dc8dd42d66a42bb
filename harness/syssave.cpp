// C18: one-atom and pair systems are saved at a random point of a random history and loaded again. The loaded system has
// to have the same states, basis vectors and Hamiltonian, and every further operation, applied to both, has to have the
// same effect. Element caches are saved and loaded as well.
#include "sysmodel.hpp"
#include "MatrixElementCache.hpp"
#include "SystemOne.hpp"
#include "SystemTwo.hpp"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/types/memory.hpp>
#include <filesystem>
using namespace vh;
using sm::M;
using sm::cd;

static long saves = 0, continued = 0, refused = 0, truncations = 0, restarts = 0, added = 0, sums_made = 0;

template <class Sys>
struct Op {
    std::string name;
    std::function<void(Sys &)> f;
};
template <class Sys, class... A>
static Op<Sys> op(std::string n, std::function<void(Sys &)> f) { return {std::move(n), std::move(f)}; }

// the archives
template <class Sys>
static std::string pack(Sys &s, int fmt) {
    std::ostringstream os;
    if (fmt == 0) { cereal::BinaryOutputArchive ar(os); ar << cereal::make_nvp("cls", s); }
    if (fmt == 1) { cereal::PortableBinaryOutputArchive ar(os); ar << cereal::make_nvp("cls", s); }
    if (fmt == 2) { cereal::JSONOutputArchive ar(os); ar << cereal::make_nvp("cls", s); }
    return os.str();
}
template <class Sys>
static void unpack(Sys &s, int fmt, std::string const &d) {
    std::istringstream is(d);
    if (fmt == 0) { cereal::BinaryInputArchive ar(is); ar >> cereal::make_nvp("cls", s); }
    if (fmt == 1) { cereal::PortableBinaryInputArchive ar(is); ar >> cereal::make_nvp("cls", s); }
    if (fmt == 2) { cereal::JSONInputArchive ar(is); ar >> cereal::make_nvp("cls", s); }
}

// A system that knows how to be created empty (as a loader does) together with the cache it refers to
template <class S>
static SystemOne<S> blank(MatrixElementCache &c, SystemOne<S> *) { return SystemOne<S>("", c); }
template <class S>
static SystemTwo<S> blank(MatrixElementCache &c, SystemTwo<S> *) { SystemOne<S> a("", c), b("", c); return SystemTwo<S>(a, b, c); }

// --- operations ---
template <class Sys>
static Op<Sys> common(Rng &r, bool cplx) {
    switch (r.i(0, 11)) {
    case 0: return {"buildHamiltonian", [](Sys &s) { s.buildHamiltonian(); }};
    case 1: return {"buildInteraction", [](Sys &s) { s.buildInteraction(); }};
    case 2: return {"buildBasis", [](Sys &s) { s.buildBasis(); }};
    case 3: case 4: return {"diagonalize", [](Sys &s) { s.diagonalize(); }};
    case 5: return {"canonicalize", [](Sys &s) { s.canonicalize(); }};
    case 6: return {"unitarize", [](Sys &s) { s.unitarize(); }};
    case 7: {
        double a = cplx ? r.u(-3, 3) : 0, b = r.u(-3, 3), g = cplx ? r.u(-3, 3) : 0;
        return {"rotate", [=](Sys &s) { s.rotate(a, b, g); }};
    }
    case 8: return {"forgetStatemixing", [](Sys &s) { s.forgetStatemixing(); }};
    case 9: {
        double t = r.pick(std::vector<double>{.0613, .217, 1e-31, .4431});
        return {str("norm ", t), [=](Sys &s) { s.setMinimalNorm(t); }};
    }
    case 10: {
        unsigned long k = r.g();
        return {"entry", [=](Sys &s) {
            auto st = s.getStates();
            auto const &a = st[k % st.size()], &b = st[(k >> 20) % st.size()];
            if (k & (1ul << 50)) s.setHamiltonianEntry(a, b, typename Sys::Scalar(double(k % 1000) / 100));
            else s.addHamiltonianEntry(a, b, typename Sys::Scalar(double(k % 1000) / 100));
        }};
    }
    default: {
        // restrict by energy to a window placed relative to the middle of the spectrum, between two levels
        double q = r.u(.55, 1);
        bool lower = r.b(.4);
        return {lower ? "energy+" : "energy", [=](Sys &s) {
            auto e = sm::eigenvalues(sm::dense(s.getHamiltonian()));
            if (lower) { for (double &x : e) x = -x; std::reverse(e.begin(), e.end()); }
            size_t k = (size_t)(q * double(e.size()));
            if (k < 2 || k >= e.size()) return;
            size_t best = k;
            double gap = 0;
            for (size_t i = k; i < e.size(); ++i)
                if (e[i] - e[i - 1] > gap) { gap = e[i] - e[i - 1]; best = i; }
            if (gap < 1e-3) return;
            double a = e.front() - 1e3, b = .5 * (e[best] + e[best - 1]);
            lower ? s.restrictEnergy(-b, -a) : s.restrictEnergy(a, b);
        }};
    }
    }
}
template <class S>
static Op<SystemOne<S>> random_op(Rng &r, SystemOne<S> *, std::string const &sp, int n) {
    using Sys = SystemOne<S>;
    constexpr bool cplx = std::is_same<S, std::complex<double>>::value;
    switch (r.i(0, 23)) {
    case 0: case 1: case 2: {
        std::array<double, 3> e{{r.b() ? r.u(-60, 60) : 0, cplx && r.b() ? r.u(-60, 60) : 0, r.u(-60, 60)}};
        return {"E", [=](Sys &s) { s.setEfield(e); }};
    }
    case 3: case 4: {
        std::array<double, 3> b{{r.b() ? r.u(-3e3, 3e3) : 0, cplx && r.b() ? r.u(-3e3, 3e3) : 0, r.u(-3e3, 3e3)}};
        return {"B", [=](Sys &s) { s.setBfield(b); }};
    }
    case 5: { double x = r.u(-60, 60), be = r.u(-3, 3); return {"E rotated", [=](Sys &s) { s.setEfield({{0, 0, x}}, 0, be, 0); }}; }
    case 6: { bool b = r.b(); return {str("diamagnetism ", b), [=](Sys &s) { s.enableDiamagnetism(b); }}; }
    case 7: { int q = (int)r.i(0, 3) - 1; return {str("charge ", q), [=](Sys &s) { s.setIonCharge(q); }}; }
    case 8: { unsigned o = (unsigned)r.i(1, 2); return {str("ion order ", o), [=](Sys &s) { s.setRydIonOrder(o); }}; }
    case 9: case 10: { double d = r.u(1, 4); return {str("ion distance ", d), [=](Sys &s) { s.setRydIonDistance(d); }}; }
    case 11: { std::set<int> ns{n}; if (r.b()) ns.insert(n + 1); return {str("n ", ns.size()), [=](Sys &s) { s.restrictN(ns); }}; }
    case 12: { int l = (int)r.i(0, 2); return {str("l ", l), [=](Sys &s) { s.restrictL(0, l); }}; }
    case 13: { float m = (float)r.i(0, 1) + (sp[0] == 'S' ? 0 : .5f); return {str("m ", m), [=](Sys &s) { s.restrictM(-m, m); }}; }
    case 14: { float j = (float)r.i(1, 2) + (sp[0] == 'S' ? 0 : .5f); return {str("j ", j), [=](Sys &s) { s.restrictJ(0.f + (sp[0] == 'S' ? 0 : .5f), j); }}; }
    case 15: return {"addStates", [=](Sys &s) { s.addStates(StateOne("ancilla")); }};
    case 16: if (r.b(.3)) return {"addStates of another species", [=](Sys &s) { s.addStates(StateOne(sp == "Cs" ? "Rb" : "Cs", n, 0, .5f, .5f)); }}; else { int dn = (int)r.i(2, 3); return {"addStates+", [=](Sys &s) { s.addStates(StateOne(sp, n + dn, 0, sp == "Sr3" ? 1.f : sp == "Sr1" ? 0.f : .5f, sp[0] == 'S' ? 0 : .5f)); }}; }
    case 17: { float m = (float)r.i(0, 1) + (sp[0] == 'S' ? 0 : .5f); return {str("momentum ", m), [=](Sys &s) { s.setConservedMomentaUnderRotation({m, -m}); }}; }
    case 18: { auto p = r.b() ? EVEN : ODD; return {"reflection", [=](Sys &s) { s.setConservedParityUnderReflection(p); }}; }
    default: return common<Sys>(r, cplx);
    }
}
template <class S>
static Op<SystemTwo<S>> random_op(Rng &r, SystemTwo<S> *, std::string const &sp, int n) {
    using Sys = SystemTwo<S>;
    constexpr bool cplx = std::is_same<S, std::complex<double>>::value;
    switch (r.i(0, 23)) {
    case 0: case 1: case 2: case 3: { double d = std::exp(r.u(-.5, 1.5)); return {str("distance ", d), [=](Sys &s) { s.setDistance(d); }}; }
    case 4: { double t = r.u(-3, 3); return {str("angle ", t), [=](Sys &s) { s.setAngle(t); }}; }
    case 5: {
        std::array<double, 3> v{{r.u(-2, 2), cplx ? r.u(-2, 2) : 0, r.u(-2, 2)}};
        return {"vector", [=](Sys &s) { s.setDistanceVector(v); }};
    }
    case 6: case 7: { double o = r.b(.7) ? 3 : 4; return {str("order ", o), [=](Sys &s) { s.setOrder(o); }}; }
    case 8: case 9: { bool b = r.b(.7); return {str("green ", b), [=](Sys &s) { s.enableGreenTensor(b); }}; }
    case 10: { double d = r.u(2, 6); return {str("surface ", d), [=](Sys &s) { s.setSurfaceDistance(d); }}; }
    case 11: { auto p = r.b() ? EVEN : ODD; return {"permutation", [=](Sys &s) { s.setConservedParityUnderPermutation(p); }}; }
    case 12: { auto p = r.b() ? EVEN : ODD; return {"inversion", [=](Sys &s) { s.setConservedParityUnderInversion(p); }}; }
    case 13: { auto p = r.b() ? EVEN : ODD; return {"reflection", [=](Sys &s) { s.setConservedParityUnderReflection(p); }}; }
    case 14: { int m = (int)r.i(0, 1); return {str("momentum ", m), [=](Sys &s) { s.setConservedMomentaUnderRotation({m}); }}; }
    case 15: case 16: {
        unsigned long k = r.g();
        return {"one-atom vectors", [=](Sys &s) {
            std::vector<std::array<size_t, 2>> v;
            for (size_t i = 0; i < 4; ++i)
                for (size_t j = 0; j < 4; ++j)
                    if ((k >> (4 * i + j)) & 1) v.push_back({{i, j}});
            s.setOneAtomBasisvectors(v);
        }};
    }
    case 18: {
        bool f = r.b(), w = r.b();
        StateOne a("Cs", n, 0, .5f, .5f), b("Li", n, 0, .5f, .5f), k(sp, n + 2, 0, sp == "Sr3" ? 1.f : sp == "Sr1" ? 0.f : .5f, sp[0] == 'S' ? 0 : .5f);
        return {str("addStates ", f, w), [=](Sys &s) { s.addStates(StateTwo(w ? (f ? a : k) : k, w ? (f ? k : b) : k)); }};
    }
    case 17: { float m = (float)r.i(0, 1) + .5f; return {str("m ", m), [=](Sys &s) { s.restrictM(-m, m); }}; }
    default: return common<Sys>(r, cplx);
    }
}
static std::string attr(StateOne const &s) {
    if (s.isArtificial()) return s.getLabel();
    return str(s.getSpecies(), s.getElement(), s.getN(), ",", s.getL(), ",", s.getJ(), ",", s.getM(), ",", s.getS(), "#", s.getHash());
}
static std::string attr(StateTwo const &s) { return attr(s.getFirstState()) + "|" + attr(s.getSecondState()) + str("#", s.getHash()); }

// Does the loaded system equal the original? Compared without reference to the phases and the order of basis vectors.
template <class Sys>
static bool equal(Sys &a, Sys &b, std::string const &key, std::string const &c) {
    std::string ma, mb;
    if (a.getSpecies() != b.getSpecies()) out().violation(key + ":species", "", c);
    decltype(a.getStates()) sa, sb;
    M Ba, Bb, Ha, Hb;
    try { Ha = sm::dense(a.getHamiltonian()); sa = a.getStates(); Ba = sm::dense(a.getBasisvectors()); } catch (std::exception const &e) { ma = str("threw ", e.what()); }
    try { Hb = sm::dense(b.getHamiltonian()); sb = b.getStates(); Bb = sm::dense(b.getBasisvectors()); } catch (std::exception const &e) { mb = str("threw ", e.what()); }
    if (ma != mb) { out().violation(key + ":exception", str("original ", ma, ", loaded ", mb), c); return false; }
    if (!ma.empty()) { ++refused; return false; }
    if (sa.size() != sb.size()) { out().violation(key + ":states", str(sa.size(), " states, loaded ", sb.size()), c); return false; }
    std::map<std::string, long> at;
    for (size_t i = 0; i < sb.size(); ++i) at[attr(sb[i])] = (long)i;
    M P = M::Zero(Bb.rows(), Bb.cols());
    for (size_t i = 0; i < sa.size(); ++i) {
        auto it = at.find(attr(sa[i]));
        if (it == at.end()) { out().violation(key + ":states", "no state " + attr(sa[i]), c); return false; }
        P.row((long)i) = Bb.row(it->second);
    }
    if (Ba.cols() != Bb.cols() || Ha.cols() != Hb.cols()) { out().violation(key + ":basis", str(Ba.cols(), " vectors, loaded ", Bb.cols()), c); return false; }
    double x = sm::maxabs(Ba * Ba.adjoint() - P * P.adjoint());
    if (!(x <= 1e-7)) { out().violation(key + ":basis", str("projector differs by ", x), c); return false; }
    double sc = 1e-9 * sm::maxabs(Ha) + 1e-9;
    x = sm::maxabs(Ba * Ha * Ba.adjoint() - P * Hb * P.adjoint());
    if (!(x <= sc)) { out().violation(key + ":hamiltonian", str("differs by ", x, " of ", sm::maxabs(Ha)), c); return false; }
    auto ea = sm::eigenvalues(Ha), eb = sm::eigenvalues(Hb);
    for (size_t i = 0; i < ea.size(); ++i)
        if (!(std::abs(ea[i] - eb[i]) <= sc)) { out().violation(key + ":spectrum", str(ea[i], ", loaded ", eb[i]), c); return false; }
    return true;
}
// Is the archive as it stands the same? (states, vectors and matrices are read without triggering a recalculation)
template <class Sys>
static void trial(Rng &r, Sys orig, Sys const &distant, std::string const &kind, std::string const &sp, int n, std::string c) {
    std::vector<Op<Sys>> history;
    long before = r.i(0, 5), after = r.i(1, 5);
    for (long k = 0; k < before; ++k) {
        auto o = random_op(r, (Sys *)nullptr, sp, n);
        c += " " + o.name;
        out().casebegin(c);
        history.push_back(o);
        try { o.f(orig); } catch (std::exception const &) { c += "!"; }
    }
    size_t dim = 0;
    if (r.b(.6)) { if (throws([&] { dim = orig.getNumStates(); })) return; }
    if (dim > 130) return;
    int fmt = (int)r.i(0, 9);
    fmt = fmt < 7 ? 0 : fmt - 7;
    c += str(" <save ", fmt, ">");
    out().casebegin(c);
    std::string data;
    Sys witness(orig); // saving does not change what is saved
    try { data = pack(orig, fmt); } catch (std::exception const &e) { out().violation(kind + ":save:exception", e.what(), c); return; }
    ++saves;
    MatrixElementCache cache2; // what the loader hands over
    Sys got = blank(cache2, (Sys *)nullptr);
    try { unpack(got, fmt, data); } catch (std::exception const &e) { out().violation(kind + ":load:exception", e.what(), c); return; }
    if (fmt < 2 && r.b(.1)) {
        std::string cut = data.substr(0, (size_t)r.i(0, (long)data.size() - 1));
        MatrixElementCache cache3;
        Sys part = blank(cache3, (Sys *)nullptr);
        ++truncations;
        if (!throws([&] { unpack(part, fmt, cut); })) out().violation(kind + ":truncated", str(cut.size(), " of ", data.size(), " bytes accepted"), c);
    }
    if (fmt == 0 && r.b(.1)) { // without a cache there is nothing to load into
        std::ostringstream os;
        { cereal::BinaryOutputArchive ar(os); std::unique_ptr<Sys> p(new Sys(orig)); ar(p); }
        std::istringstream is(os.str());
        cereal::BinaryInputArchive ar(is);
        std::unique_ptr<Sys> p;
        if (!throws([&] { ar(p); }) && p) out().violation(kind + ":pointer", "", c);
    }
    bool again = r.b(.15);
    if (again) { // several generations
        std::string d2 = pack(got, fmt);
        MatrixElementCache cache4;
        Sys g2 = blank(cache4, (Sys *)nullptr);
        unpack(g2, fmt, d2);
        if (d2.size() != data.size()) out().violation(kind + ":generations", str(data.size(), " bytes, then ", d2.size()), c);
        if (!equal(witness, g2, kind + ":generations", c)) return;
    }
    if (r.b(.5) && !equal(orig, got, kind + ":loaded", c)) { out().eval(c); return; }
    out().eval(c);
    // Is the loaded system as different from another one as the original?
    auto sums = [&] {
        // another system, mostly of other states, that has been through the same or nearly the same
        bool far = r.b(.8);
        Sys x(orig), other(far ? distant : orig), other2(other);
        auto o = random_op(r, (Sys *)nullptr, sp, n);
        bool apply = r.b();
        std::string cc = c + " <add " + (far ? "distant " : "") + (apply ? o.name : "") + ">";
        if (far)
            for (auto const &h : history)
                for (Sys *s : {&other, &other2})
                    try { h.f(*s); } catch (std::exception const &) {}
        out().casebegin(cc);
        if (apply) {
            try { o.f(other); } catch (std::exception const &) {}
            try { o.f(other2); } catch (std::exception const &) {}
        }
        Sys mine(got);
        std::string ma, mb;
        bool left = r.b();
        try { left ? x.add(other) : other.add(x); } catch (std::exception const &e) { ma = str("threw ", e.what()); }
        try { left ? mine.add(other2) : other2.add(mine); } catch (std::exception const &e) { mb = str("threw ", e.what()); }
        ++added;
        if (ma.empty()) ++sums_made;
        if (ma != mb) { out().violation(kind + ":add:exception", str("original ", ma, ", loaded ", mb), cc); return; }
        if (ma.empty()) left ? equal(x, mine, kind + ":add", cc) : equal(other, other2, kind + ":add", cc);
    };
    if (r.b(.3)) sums();
    bool one = r.b(.5); // look at every step or only at the end
    for (long k = 0; k < after; ++k) {
        auto o = random_op(r, (Sys *)nullptr, sp, n);
        c += " " + o.name;
        out().casebegin(c);
        std::string ma, mb;
        try { o.f(orig); } catch (std::exception const &e) { ma = str("threw ", e.what()); }
        try { o.f(got); } catch (std::exception const &e) { mb = str("threw ", e.what()); }
        if (ma != mb) { out().violation(kind + ":continue:exception", str("original ", ma, ", loaded ", mb), c); return; }
        ++continued;
        if (one || k == after - 1) {
            if (!equal(orig, got, kind + ":continue", c)) return;
            out().eval(c);
        }
    }
}
template <class S>
static SystemOne<S> one(Rng &r, MatrixElementCache &cache, bool pair, std::string const &sp, int n, bool saving, std::string &c) {
    SystemOne<S> s = saving && !pair ? SystemOne<S>(sp, cache, true) : SystemOne<S>(sp, cache);
    int l1 = pair ? 1 : (int)r.i(1, 2);
    s.restrictN(n, n + (pair ? 0 : (int)r.i(0, 1)));
    s.restrictL(pair && sp == "Sr3" ? 1 : 0, l1);
    if (pair) s.restrictM(sp[0] == 'S' ? -1 : -.5f, sp[0] == 'S' ? 1 : .5f);
    c += str(" ", sp, n, " l ", l1);
    if (pair && r.b(.2)) { s.setEfield({{0, 0, r.u(-5, 5)}}); c += " E"; }
    if (pair && r.b(.2)) { s.diagonalize(); c += " diagonal"; }
    return s;
}
// element caches on their own: same answers after loading, with and without a database and a table of elements
static void caches(Rng &r, long it) {
    std::string dir = scratch() + str("/c", it), c = "cache";
    bool db = r.b();
    std::filesystem::create_directories(dir);
    {
        std::unique_ptr<MatrixElementCache> a(db ? new MatrixElementCache(dir) : new MatrixElementCache);
        c += db ? " db" : " memory";
        auto m = r.b() ? NUMEROV : WHITTAKER;
        a->setMethod(m);
        c += m == NUMEROV ? " numerov" : " whittaker";
        std::vector<std::pair<StateOne, StateOne>> q;
        std::string sp = r.pick(std::vector<std::string>{"Rb", "Cs", "Sr3"});
        float s = sp == "Sr3" ? 1 : .5f;
        int n0 = 20 + (int)r.i(0, 3);
        for (int k = 0; k < 6; ++k) {
            int l = (int)r.i(0, 1);
            float j1 = (float)l + s, j2 = (float)l + 1 + (r.b() ? s : s == 1 ? 0 : -s), m1 = (s == 1 ? 0 : .5f), m2 = m1 + (float)r.i(0, 1);
            q.emplace_back(StateOne(sp, n0 + (int)r.i(0, 1), l, j1, m1), StateOne(sp, n0 + (int)r.i(0, 1), l + 1, j2, m2));
        }
        if (r.b(.4)) {
            std::ofstream f(dir + "/d.csv");
            f << "# species, n, l, j, n, l, j, value\n" << sp << "," << n0 << ",0," << s << "," << n0 << ",1," << 1 + s << "," << r.u(100, 900) << "\n";
            f.close();
            c += " table";
            try { a->loadElectricDipoleDB(dir + "/d.csv", sp); } catch (std::exception const &e) { c += "!"; }
        }
        long known = r.i(0, 6);
        std::vector<double> want;
        for (long k = 0; k < known; ++k) a->getElectricDipole(q[(size_t)k].first, q[(size_t)k].second);
        out().casebegin(c);
        int fmt = (int)r.i(0, 2);
        std::string d = pack(*a, fmt);
        MatrixElementCache b;
        unpack(b, fmt, d);
        ++restarts;
        if (r.b(.3)) a.reset(); // the database is closed before the loaded cache is used
        if (a && a->size() != b.size()) out().violation("cache:size", str(a->size(), ", loaded ", b.size()), c);
        std::unique_ptr<MatrixElementCache> ref(a ? nullptr : new MatrixElementCache);
        if (!a) { ref->setMethod(m); if (c.find("table") != std::string::npos) try { ref->loadElectricDipoleDB(dir + "/d.csv", sp); } catch (std::exception const &) {} }
        MatrixElementCache &x = a ? *a : *ref;
        for (auto const &p : q) {
            double u = x.getElectricDipole(p.first, p.second), v = b.getElectricDipole(p.first, p.second);
            if (!(std::abs(u - v) <= 1e-12 * std::abs(u))) out().violation("cache:dipole", str(u, ", loaded ", v), c + " " + attr(p.first) + " " + attr(p.second));
            u = x.getRadial(p.first, p.second, 1), v = b.getRadial(p.first, p.second, 1);
            if (!(std::abs(u - v) <= 1e-12 * std::abs(u))) out().violation("cache:radial", str(u, ", loaded ", v), c);
            out().eval(c + attr(p.first) + attr(p.second));
        }
    }
    std::filesystem::remove_all(dir);
}
template <class S>
static void go(Rng &r, MatrixElementCache &cache) {
    std::string c = std::is_same<S, std::complex<double>>::value ? "complex" : "real";
    bool saving = r.b(.2);
    if (saving) c += " saving";
    std::string sp = r.pick(std::vector<std::string>{"Rb", "Sr1", "Sr3", "Rb"});
    int n = 15 + (int)((seed() + sp.size()) % 9);
    if (r.b(.55)) {
        auto s = one<S>(r, cache, false, sp, n, saving, c);
        std::string cd;
        Rng r2(r);
        auto d = one<S>(r2, cache, false, sp, n + 7, saving, cd);
        trial(r, s, d, "one", sp, n, c);
    } else {
        if (sp == "Sr3" && r.b(.7)) sp = "Rb";
        auto a = one<S>(r, cache, true, sp, n, false, c);
        bool same = r.b(.5);
        std::string sp2 = r.b(.7) ? sp : "Sr1";
        auto b = same ? a : one<S>(r, cache, true, sp2, n, false, c);
        SystemTwo<S> s = saving ? SystemTwo<S>(a, b, cache, true) : SystemTwo<S>(a, b, cache);
        std::string cd;
        Rng r2(r);
        auto a2 = one<S>(r2, cache, true, sp, n + 7, false, cd);
        auto b2 = same ? a2 : one<S>(r2, cache, true, sp2, n + 7, false, cd);
        SystemTwo<S> d = saving ? SystemTwo<S>(a2, b2, cache, true) : SystemTwo<S>(a2, b2, cache);
        trial(r, s, d, "two", sp, n, c);
    }
}
int main(int argc, char **argv) {
    long part = argc > 1 ? std::atol(argv[1]) : 0;
    Rng r(18 + 100 * part);
    std::unique_ptr<MatrixElementCache> cache(new MatrixElementCache);
    for (long it = 0; it < n(argc > 2 ? std::atol(argv[2]) : 1500, 20000); ++it) {
        if (it % 50 == 49) cache.reset(new MatrixElementCache);
        r.b(.6) ? go<std::complex<double>>(r, *cache) : go<double>(r, *cache);
        if (it % 8 == 0) guarded("cache", "cache", [&] { caches(r, it); });
    }
    out().count("saves", saves);
    out().count("continued_operations", continued);
    out().count("attempts_to_add", added);
    out().count("sums", sums_made);
    out().count("refused", refused);
    out().count("truncated_archives", truncations);
    out().count("caches", restarts);
    VH_MAIN_END();
}
