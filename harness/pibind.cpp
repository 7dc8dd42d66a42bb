// The library behind a plain C interface, for the parts of the front end that calculate by themselves
#include "MatrixElementCache.hpp"
#include "State.hpp"
#include "SystemOne.hpp"
#include "SystemTwo.hpp"

#include <complex>
#include <cstring>
#include <string>
#include <variant>
#include <vector>

namespace {
using D = double;
using C = std::complex<double>;
struct Sys {
    std::variant<SystemOne<D> *, SystemOne<C> *, SystemTwo<D> *, SystemTwo<C> *> p;
};
std::string error, text;
std::vector<double> result;

template <class F>
int guarded(F &&f) {
    error.clear();
    try {
        f();
        return 0;
    } catch (std::exception const &e) {
        error = e.what();
        if (error.empty()) error = "unnamed";
        return 1;
    }
}

void put(StateOne const &s) {
    for (double x : {(double)s.getN(), (double)s.getL(), (double)s.getJ(), (double)s.getM()}) result.push_back(x);
}
void put(StateTwo const &s) {
    put(s.getFirstState());
    put(s.getSecondState());
}
template <class S>
void put(Eigen::SparseMatrix<S> m) {
    m.makeCompressed();
    result = {(double)m.rows(), (double)m.cols(), (double)m.nonZeros()};
    for (int i = 0; i <= m.outerSize(); ++i) result.push_back(m.outerIndexPtr()[i]);
    for (int i = 0; i < m.nonZeros(); ++i) result.push_back(m.innerIndexPtr()[i]);
    for (int i = 0; i < m.nonZeros(); ++i) result.push_back(std::real(m.valuePtr()[i]));
    for (int i = 0; i < m.nonZeros(); ++i) result.push_back(std::imag(m.valuePtr()[i]));
}
template <class S>
StateOne one(SystemOne<S> *s, double const *a) {
    return StateOne(s->getSpecies(), (int)a[0], (int)a[1], (float)a[2], (float)a[3]);
}
template <class S>
StateTwo one(SystemTwo<S> *s, double const *a) {
    return StateTwo(s->getSpecies(), {(int)a[0], (int)a[4]}, {(int)a[1], (int)a[5]}, {(float)a[2], (float)a[6]}, {(float)a[3], (float)a[7]});
}
parity_t parity(double x) { return x > 0 ? EVEN : x < 0 ? ODD : NA; }
[[noreturn]] void unknown(std::string const &op) { throw std::logic_error("unknown operation " + op); }

template <class S>
void special(SystemOne<S> *s, std::string const &op, double const *a, int n) {
    if (op == "setEfield") s->setEfield({{a[0], a[1], a[2]}});
    else if (op == "setBfield") s->setBfield({{a[0], a[1], a[2]}});
    else if (op == "enableDiamagnetism") s->enableDiamagnetism(a[0] != 0);
    else if (op == "setConservedMomentaUnderRotation") s->setConservedMomentaUnderRotation(std::set<float>(a, a + n));
    else if (op == "setConservedParityUnderReflection") s->setConservedParityUnderReflection(parity(a[0]));
    else unknown(op);
}
template <class S>
void special(SystemTwo<S> *s, std::string const &op, double const *a, int n) {
    if (op == "setAngle") s->setAngle(a[0]);
    else if (op == "setDistance") s->setDistance(a[0]);
    else if (op == "setOrder") s->setOrder(a[0]);
    else if (op == "setConservedMomentaUnderRotation") s->setConservedMomentaUnderRotation(std::set<int>(a, a + n));
    else if (op == "setConservedParityUnderReflection") s->setConservedParityUnderReflection(parity(a[0]));
    else if (op == "setConservedParityUnderInversion") s->setConservedParityUnderInversion(parity(a[0]));
    else if (op == "setConservedParityUnderPermutation") s->setConservedParityUnderPermutation(parity(a[0]));
    else unknown(op);
}
template <class T>
void call(T *s, std::string const &op, double const *a, int n) {
    if (op == "restrictEnergy") s->restrictEnergy(a[0], a[1]);
    else if (op == "restrictN") s->restrictN((int)a[0], (int)a[1]);
    else if (op == "restrictL") s->restrictL((int)a[0], (int)a[1]);
    else if (op == "restrictJ") s->restrictJ((float)a[0], (float)a[1]);
    else if (op == "restrictM") s->restrictM((float)a[0], (float)a[1]);
    else if (op == "setMinimalNorm") s->setMinimalNorm(a[0]);
    else if (op == "getNumStates") result = {(double)s->getNumStates()};
    else if (op == "getNumBasisvectors") result = {(double)s->getNumBasisvectors()};
    else if (op == "getStates") for (auto const &x : s->getStates()) put(x);
    else if (op == "getMainStates") for (auto const &x : s->getMainStates()) put(x);
    else if (op == "getHamiltonian") put(s->getHamiltonian());
    else if (op == "getBasisvectors") put(s->getBasisvectors());
    else if (op == "buildHamiltonian") s->buildHamiltonian();
    else if (op == "buildInteraction") s->buildInteraction();
    else if (op == "buildBasis") s->buildBasis();
    else if (op == "diagonalize") n == 0 ? s->diagonalize() : s->diagonalize(a[0]);
    else if (op == "getOverlap") {
        Eigen::VectorX<double> v = s->getOverlap(one(s, a));
        result.assign(v.data(), v.data() + v.size());
    } else special(s, op, a, n);
}
} // namespace

extern "C" {
char const *pi_error() { return error.c_str(); }
int pi_size() { return (int)result.size(); }
double const *pi_result() { return result.data(); }

void *pi_cache(char const *path, int numerov) {
    MatrixElementCache *c = nullptr;
    guarded([&] {
        c = *path ? new MatrixElementCache(path) : new MatrixElementCache();
        c->setMethod(numerov ? NUMEROV : WHITTAKER);
    });
    return c;
}
void pi_method(void *c, int numerov) { static_cast<MatrixElementCache *>(c)->setMethod(numerov ? NUMEROV : WHITTAKER); }
void pi_cache_free(void *c) { delete static_cast<MatrixElementCache *>(c); }

int pi_energy(char const *species, int n, int l, double j, double *e) {
    return guarded([&] { *e = StateOne(species, n, l, (float)j, (float)j).getEnergy(); });
}
void *pi_one(int cplx, char const *species, void *cache) {
    auto &c = *static_cast<MatrixElementCache *>(cache);
    Sys *s = nullptr;
    guarded([&] { s = cplx ? new Sys{new SystemOne<C>(species, c)} : new Sys{new SystemOne<D>(species, c)}; });
    return s;
}
void *pi_two(void *a, void *b, void *cache) {
    auto &c = *static_cast<MatrixElementCache *>(cache);
    auto &x = static_cast<Sys *>(a)->p;
    auto &y = static_cast<Sys *>(b)->p;
    Sys *s = nullptr;
    guarded([&] {
        if (auto *d = std::get_if<SystemOne<D> *>(&x)) s = new Sys{new SystemTwo<D>(**d, *std::get<SystemOne<D> *>(y), c)};
        else s = new Sys{new SystemTwo<C>(*std::get<SystemOne<C> *>(x), *std::get<SystemOne<C> *>(y), c)};
    });
    return s;
}
void *pi_copy(void *a) {
    Sys *s = nullptr;
    guarded([&] { std::visit([&](auto *p) { s = new Sys{new std::decay_t<decltype(*p)>(*p)}; }, static_cast<Sys *>(a)->p); });
    return s;
}
void pi_free(void *a) {
    std::visit([](auto *p) { delete p; }, static_cast<Sys *>(a)->p);
    delete static_cast<Sys *>(a);
}
int pi_add(void *a, void *b) {
    return guarded([&] { std::visit([&](auto *p) { p->add(*std::get<std::decay_t<decltype(p)>>(static_cast<Sys *>(b)->p)); }, static_cast<Sys *>(a)->p); });
}
int pi_call(void *a, char const *op, double const *args, int n) {
    result.clear();
    return guarded([&] { std::visit([&](auto *p) { call(p, op, args, n); }, static_cast<Sys *>(a)->p); });
}
}
