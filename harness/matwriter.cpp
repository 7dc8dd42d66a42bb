// Writes random Hamiltonian matrices with the library and, next to each, what it contains. Arguments: directory, count, stream.
#include "Hamiltonianmatrix.hpp"
#include "vh.hpp"
#include <cstdio>
#include <map>

using namespace vh;
template <class S>
using Sp = Eigen::SparseMatrix<S>;

double number(Rng &r) {
    static std::vector<double> const sp{0., -0., 1., -1., 4.9406564584124654e-324, 1e-310, 1.7976931348623157e308, 0.1, 1 / 3.};
    return r.b(.2) ? r.pick(sp) : r.normal() * std::pow(10., r.u(-12, 6));
}
template <class S>
S value(Rng &r);
template <>
double value<double>(Rng &r) { return number(r); }
template <>
std::complex<double> value<std::complex<double>>(Rng &r) {
    double a = number(r), b = r.b(.3) ? 0. : number(r);
    return {a, b};
}

template <class S>
Sp<S> matrix(Rng &r, long rows, long cols) {
    std::map<std::pair<long, long>, S> t;
    if (rows > 0 && cols > 0) {
        int shape = (int)r.i(0, 8);
        long want = shape == 0 ? 0 : shape == 1 ? 1 : r.i(0, std::min<long>(rows * cols, 80));
        if (shape == 8) want = 0;
        for (long k = 0; k < want; ++k) {
            long rr = r.i(0, rows - 1), cc = r.i(0, cols - 1);
            if (shape == 2) cc = cols - 1;
            if (shape == 3) cc = 0;
            if (shape == 4) cc = std::min(cols - 1, cols / 2 + cc % (cols - cols / 2));
            if (shape == 5) cc = cc - cc % 3;
            if (shape == 6) rr = cc % rows;
            t[{cc, rr}] = value<S>(r);
        }
        if (shape == 8)
            for (long i = 0; i < rows; ++i)
                for (long k = 0; k < cols; ++k) t[{k, i}] = value<S>(r);
    }
    std::vector<Eigen::Triplet<S>> tr;
    for (auto const &x : t) tr.emplace_back((int)x.first.second, (int)x.first.first, x.second);
    Sp<S> m(rows, cols);
    m.setFromTriplets(tr.begin(), tr.end());
    return m;
}

template <class S>
void put(FILE *f, Sp<S> const &m) {
    std::fprintf(f, "%ld %ld %ld\n", (long)m.rows(), (long)m.cols(), (long)m.nonZeros());
    for (int k = 0; k < m.outerSize(); ++k)
        for (typename Sp<S>::InnerIterator it(m, k); it; ++it) {
            std::complex<double> v = it.value();
            std::fprintf(f, "%ld %ld %.17g %.17g\n", (long)it.row(), (long)it.col(), v.real(), v.imag());
        }
}

template <class S>
void one(Rng &r, std::string const &name, char const *kind) {
    long n = r.b(.08) ? 0 : r.b(.15) ? 1 : r.i(1, 25), nb = r.b(.1) ? n : r.b(.05) ? 0 : r.i(n, n + 30);
    Sp<S> e = matrix<S>(r, n, n), b = matrix<S>(r, nb, n);
    if (r.b(.5)) { // diagonal, as after a diagonalisation
        Sp<S> d(n, n);
        for (long i = 0; i < n; ++i)
            if (r.b(.85)) d.insert((int)i, (int)i) = S(number(r));
        e = d; // may be uncompressed
    }
    Hamiltonianmatrix<S> h(e, b);
    FILE *f = std::fopen((name + ".txt").c_str(), "w");
    std::fprintf(f, "%s\n", kind);
    put<S>(f, e);
    put<S>(f, b);
    std::fclose(f);
    h.save(name + ".mat");
}

int main(int argc, char **argv) {
    Rng r((uint64_t)std::atoi(argv[3]));
    for (int k = 0; k < std::atoi(argv[2]); ++k) {
        std::string name = str(argv[1], "/", k);
        if (r.b(.5)) one<double>(r, name, "real");
        else one<std::complex<double>>(r, name, "complex");
    }
    return argc == 4 ? 0 : 2;
}
