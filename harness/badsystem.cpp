// C24: archives of systems and of element caches.
#include "badinput.hpp"
#include "sysmodel.hpp"
#include "MatrixElementCache.hpp"
#include "SystemOne.hpp"
#include "SystemTwo.hpp"

// --- systems ---
template <class Sys>
struct Open : Sys {
    using Sys::Sys;
    Open(Sys const &s) : Sys(s) {}
    std::string check() const {
        for (auto const *m : {&this->basisvectors, &this->hamiltonian, &this->basisvectors_unperturbed_cache, &this->hamiltonian_unperturbed_cache}) {
            std::string w = wellformed(*m);
            if (!w.empty()) return w;
        }
        return "";
    }
    std::vector<std::string> blocks(int fmt) const {
        std::vector<std::string> v;
        for (auto const *m : {&this->basisvectors, &this->hamiltonian, &this->basisvectors_unperturbed_cache, &this->hamiltonian_unperturbed_cache})
            if (m->nonZeros() > 0) { auto s = pack(*m, fmt); v.push_back(fmt == 1 ? s.substr(1) : s); }
        return v;
    }
    size_t count() const { return this->states.size(); }
    size_t firstindex() const { return this->states.begin()->idx; }
    std::string word() const { // the species of the first state
        return first(this->states.begin()->state).getSpecies();
    }
    static StateOne first(StateOne const &x) { return x; }
    static StateOne first(StateTwo const &x) { return x.getFirstState(); }
    double read() const { // everything that was read matters
        double x = (double)this->states.size();
        for (auto const *m : {&this->basisvectors, &this->hamiltonian})
            for (int k = 0; k < m->outerSize(); ++k)
                for (auto i = typename std::decay<decltype(*m)>::type::InnerIterator(*m, k); i; ++i) x += std::abs(i.value());
        return x;
    }
};
template <class Sys>
static void spoil(Rng &r, std::string const &kind, Open<Sys> const &s, std::function<Open<Sys>(MatrixElementCache &)> const &blank, long trials) {
    for (long k = 0; k < trials; ++k) {
        int fmt = (int)r.i(0, 2);
        std::string d = pack((Sys const &)s, fmt), c = kind + (fmt == 0 ? " binary" : fmt == 1 ? " portable" : " json");
        std::string good = d;
        if (fmt < 2 && r.b(.6)) { // sizes and indices of its matrices
            auto bl = s.blocks(fmt);
            if (bl.empty()) continue;
            auto const &m = r.pick(bl);
            size_t p = d.find(m);
            if (p == std::string::npos) { out().error("matrix not found in the archive"); return; }
            std::string w = bytes(r, m, c);
            d.replace(p, m.size(), w);
        } else if (fmt < 2 && s.count() > 0 && r.b(.4)) { // the number of states
            auto u64 = [](unsigned long x) { return std::string((char const *)&x, 8); };
            size_t p = std::string::npos;
            for (int v = 0; v < 6 && p == std::string::npos; ++v) // with the versions of the classes between
                p = d.find(u64(s.count()) + std::string(v % 2 ? 4 : 0, '\0') + u64(s.firstindex()) + std::string(4 * (size_t)(v / 2), '\0') + u64(s.word().size()) + s.word());
            if (p == std::string::npos) { out().error("the number of states was not found in the archive"); return; }
            static std::vector<long> const v{0, 1, -1, -2, -9, 1l << 20, 1l << 32, 1l << 40, 1l << 55, 1l << 58, (1l << 58) - 1, (1l << 59) - 1, 1l << 59, (1l << 60) - 1, 1l << 60, (1l << 61) - 1, 1l << 61, 1l << 62, std::numeric_limits<long>::min(), std::numeric_limits<long>::max()};
            long x = r.b(.3) ? (long)s.count() + r.i(-3, 3) : r.pick(v);
            d.replace(p, 8, u64((unsigned long)x));
            c += str(" states ", s.count(), " -> ", x);
        } else if (fmt == 2 && r.b(.6)) {
            static std::vector<std::string> const names{"\"innerSize\": ", "\"outerSize\": ", "\"valuesSize\": ", "\"innerIndexPtr\": [", "\"outerIndexPtr\": [", "\"valuePtr\": [", "\"states\": [", "\"cache_radial\": [", "\"range_n\": [", "\"idx\": "};
            auto const &nm = r.pick(names);
            std::vector<size_t> at;
            for (size_t p = d.find(nm); p != std::string::npos; p = d.find(nm, p + 1)) at.push_back(p + nm.size());
            if (at.empty()) continue;
            size_t p = r.pick(at), q = p;
            if (nm.back() == '[') { for (long i = r.i(0, 5); i >= 0 && q != std::string::npos; --i) { p = q; q = d.find('\n', p + 1); } }
            while (p < d.size() && std::isspace((unsigned char)d[p])) ++p;
            q = p;
            while (q < d.size() && tokenchar(d[q])) ++q;
            if (nm.back() == '[' && r.b(.4)) { d.erase(p, q - p + (d[q] == ',' ? 1 : 0)); c += " removed from " + nm; }
            else { auto const &w = NUMBERS[(size_t)r.i(0, 15)]; c += " " + nm + d.substr(p, q - p) + " -> " + w; d.replace(p, q - p, w); }
        } else {
            d = damage(r, d, fmt, c);
        }
        MatrixElementCache cache;
        Open<Sys> g = blank(cache);
        bool ok = reads("system", str("#", k, " ") + c, [&] { unpack((Sys &)g, fmt, d); });
        if (ok) {
            std::string w = g.check();
            if (!w.empty()) out().violation("system:" + std::string(fmt == 2 ? "json" : "binary"), "accepted although " + w, c);
            else use(g.read());
        } else if (d == good) {
            out().violation("system:refused", "an undamaged file is refused", c);
        }
    }
}
template <class S>
static void systems(Rng &r, long trials) {
    MatrixElementCache cache;
    std::string sp = r.b() ? "Rb" : "Sr3";
    SystemOne<S> one(sp, cache);
    one.restrictN(6, 7);
    one.restrictL(0, 1);
    one.setEfield({{0, 0, r.u(1, 9)}});
    if (r.b(.7)) one.setBfield({{0, 0, r.u(1, 9)}});
    if (r.b(.8)) one.diagonalize();
    std::string kind = sizeof(S) == 8 ? "real" : "complex";
    spoil<SystemOne<S>>(r, "one " + kind, Open<SystemOne<S>>(one), [](MatrixElementCache &c) { return Open<SystemOne<S>>(SystemOne<S>("", c)); }, trials);
    SystemOne<S> a("Rb", cache);
    a.restrictN(6, 6);
    a.restrictL(0, 1);
    a.restrictM(-.5, .5);
    SystemTwo<S> two(a, a, cache);
    two.setDistance(r.u(1, 4));
    if (r.b()) two.enableGreenTensor(true);
    if (r.b(.8)) two.diagonalize();
    spoil<SystemTwo<S>>(r, "two " + kind, Open<SystemTwo<S>>(two), [](MatrixElementCache &c) { SystemOne<S> x("", c); return Open<SystemTwo<S>>(SystemTwo<S>(x, x, c)); }, trials / 2);
}

// --- archives of element caches ---
static void caches(Rng &r) {
    MatrixElementCache m;
    std::string c;
    for (int k = 0; k < 3; ++k) use(m.getElectricDipole(StateOne("Rb", 6 + k % 2, 0, .5f, .5f), StateOne("Rb", 6, 1, k ? 1.5f : .5f, .5f)));
    use(m.getRadial(StateOne("Rb", 6, 0, .5f, .5f), StateOne("Rb", 7, 0, .5f, .5f), 2));
    for (int k = 0; k < 50; ++k) {
        int fmt = (int)r.i(0, 2);
        std::string d = pack(m, fmt), cc = str("archive ", fmt);
        d = damage(r, d, fmt, cc);
        MatrixElementCache g;
        reads("cache archive", cc, [&] { unpack(g, fmt, d); use((double)g.size()); });
    }
}

int main(int argc, char **argv) {
    std::string what = argc > 1 ? argv[1] : "all";
    long part = argc > 2 ? std::atol(argv[2]) : 0, trials = argc > 3 ? std::atol(argv[3]) : 1000;
    std::filesystem::current_path(scratch());
    Rng r(24 + 1000 * (unsigned long)part);
    for (long it = 0; it < trials; ++it) {
        if (what == "system") { long k = std::min(400l, trials - it); r.b() ? systems<double>(r, k) : systems<std::complex<double>>(r, k); it += k - 1; }
        if (what == "cache") { caches(r); it += 49; }
    }
    for (auto const &t : tally) {
        out().count(t.first + " accepted", t.second[0]);
        out().count(t.first + " refused", t.second[1]);
    }
    use((double)positive);
    VH_MAIN_END();
}
