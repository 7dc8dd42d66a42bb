// C29: the conversions between the library's containers and NumPy objects (NumpyUtils.hpp), callable from Python
// through ctypes. The C++ side only builds containers, converts, and shows its own memory.
#define PY_SSIZE_T_CLEAN
#include "NumpyUtils.hpp"
#include <array>
#include <complex>
#include <cstdint>
#include <string>
#include <vector>

using cd = std::complex<double>;

namespace {
struct Box {
    virtual ~Box() {}
    virtual PyObject *convert(int mode) = 0;      // 0 copy, 1 view, 2 copy of const, 3 view of const
    virtual void *data() = 0;                     // where the values are
    virtual long bytes() = 0;
};

template <typename C>
PyObject *conv(C &c, int mode) {
    C const &k = c;
    switch (mode) {
    case 0: return numpy::convert<numpy::copy>(c);
    case 1: return numpy::convert<numpy::view>(c);
    case 2: return numpy::convert<numpy::copy>(k);
    default: return numpy::convert<numpy::view>(k);
    }
}

template <typename T>
struct MatBox : Box {
    Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> m;
    MatBox(long r, long c, const void *d) : m(r, c) { if (bytes()) std::memcpy(static_cast<void *>(m.data()), d, bytes()); }
    PyObject *convert(int mode) override { return conv(m, mode); }
    void *data() override { return m.data(); }
    long bytes() override { return m.size() * sizeof(T); }
};
template <typename T>
struct VecBox : Box {
    Eigen::Matrix<T, Eigen::Dynamic, 1> m;
    VecBox(long r, const void *d) : m(r) { if (bytes()) std::memcpy(static_cast<void *>(m.data()), d, bytes()); }
    PyObject *convert(int mode) override { return conv(m, mode); }
    void *data() override { return m.data(); }
    long bytes() override { return m.size() * sizeof(T); }
};
template <typename T, size_t N>
struct ArrBox : Box {
    std::array<T, N> m;
    ArrBox(const void *d) { std::memcpy(static_cast<void *>(m.data()), d, sizeof(T) * N); }
    PyObject *convert(int mode) override { return conv(m, mode); }
    void *data() override { return m.data(); }
    long bytes() override { return N * sizeof(T); }
};
// a range of memory, seen as a pointer range (nd = 0: the overload without dimensions) or as an array of nd dimensions
template <typename T>
struct PtrBox : Box {
    std::vector<T> m;
    int nd, len;
    long dims[3];
    bool iter;
    PtrBox(long n, const void *d, int nd, int len, const long *dd, bool iter) : m(n), nd(nd), len(len), dims{dd[0], dd[1], dd[2]}, iter(iter) {
        if (n) std::memcpy(static_cast<void *>(m.data()), d, bytes());
    }
    template <numpy::view_or_copy v, typename I>
    PyObject *go(I b, I e) {
        switch (len) { // the number of dimensions that are really given
        case 1: return numpy::convert<v>(b, e, nd, {npy_intp(dims[0])});
        case 2: return numpy::convert<v>(b, e, nd, {npy_intp(dims[0]), npy_intp(dims[1])});
        default: return numpy::convert<v>(b, e, nd, {npy_intp(dims[0]), npy_intp(dims[1]), npy_intp(dims[2])});
        }
    }
    PyObject *convert(int mode) override {
        T *b = m.data(), *e = b + m.size();
        T const *cb = b, *ce = e;
        if (nd == 0) {
            switch (mode) {
            case 0: return numpy::convert<numpy::copy>(b, e);
            case 1: return numpy::convert<numpy::view>(b, e);
            case 2: return numpy::convert<numpy::copy>(cb, ce);
            default: return numpy::convert<numpy::view>(cb, ce);
            }
        }
        if (iter && !m.empty()) {
            switch (mode) {
            case 0: return go<numpy::copy>(m.begin(), m.end());
            case 1: return go<numpy::view>(m.begin(), m.end());
            case 2: return go<numpy::copy>(m.cbegin(), m.cend());
            default: return go<numpy::view>(m.cbegin(), m.cend());
            }
        }
        switch (mode) {
        case 0: return go<numpy::copy>(b, e);
        case 1: return go<numpy::view>(b, e);
        case 2: return go<numpy::copy>(cb, ce);
        default: return go<numpy::view>(cb, ce);
        }
    }
    void *data() override { return m.data(); }
    long bytes() override { return m.size() * sizeof(T); }
};
template <typename T>
struct SpBox : Box {
    Eigen::SparseMatrix<T> m;
    SpBox(long r, long c, long n, const int *i, const int *j, const void *d, bool compress) : m(r, c) {
        auto *x = static_cast<const T *>(d);
        std::vector<Eigen::Triplet<T>> t;
        for (long k = 0; k < n; ++k) t.emplace_back(i[k], j[k], x[k]);
        m.setFromTriplets(t.begin(), t.end());
        if (compress) m.makeCompressed();
        else {
            // room that is not used, as after insertions
            m.uncompress();
            for (long k = 0; k < c; ++k) m.reserve(Eigen::VectorXi::Constant(c, 2));
        }
    }
    PyObject *convert(int mode) override { return conv(m, mode); }
    void *data() override { return m.valuePtr(); }
    long bytes() override { return m.nonZeros() * sizeof(T); }
};

template <typename F>
PyObject *guarded(F f) {
    try {
        return f();
    } catch (const std::exception &e) {
        if (PyErr_Occurred()) PyErr_Clear();
        PyErr_SetString(PyExc_RuntimeError, (std::string("refused: ") + e.what()).c_str());
        return nullptr;
    }
}

template <typename M>
PyObject *shown(PyObject *o) {
    return guarded([&] {
        auto a = numpy::as<M>(o);
        using T = typename M::Scalar;
        std::vector<T> x;
        for (long j = 0; j < a.cols(); ++j)
            for (long i = 0; i < a.rows(); ++i) x.push_back(a(i, j));
        M copy = a; // what a caller does with it
        std::vector<T> y(copy.data(), copy.data() + copy.size());
        bool same = x.size() == y.size() && (x.empty() || std::memcmp(static_cast<void *>(x.data()), static_cast<void *>(y.data()), x.size() * sizeof(T)) == 0);
        return Py_BuildValue("lly#i", long(a.rows()), long(a.cols()), x.empty() ? "" : reinterpret_cast<const char *>(x.data()), Py_ssize_t(x.size() * sizeof(T)), int(same));
    });
}
} // namespace

extern "C" {
PyObject *np_init() {
    import_array();
    Py_RETURN_NONE;
}
void *box_dense(int kind, long r, long c, const void *d, int nd, int len, const long *dims, int iter) {
    switch (kind) {
    case 0: return new MatBox<double>(r, c, d);
    case 1: return new MatBox<cd>(r, c, d);
    case 2: return new VecBox<double>(r, d);
    case 3: return new VecBox<cd>(r, d);
    case 4: return new ArrBox<int, 2>(d);
    case 5: return new ArrBox<float, 2>(d);
    case 6: return new ArrBox<double, 2>(d);
    case 7: return new ArrBox<double, 3>(d);
    case 8: return new PtrBox<int>(r, d, nd, len, dims, iter);
    case 9: return new PtrBox<float>(r, d, nd, len, dims, iter);
    case 10: return new PtrBox<double>(r, d, nd, len, dims, iter);
    case 11: return new PtrBox<cd>(r, d, nd, len, dims, iter);
    case 12: return new MatBox<float>(r, c, d);
    case 13: return new VecBox<int>(r, d);
    }
    return nullptr;
}
void *box_sparse(int z, long r, long c, long n, const int *i, const int *j, const void *d, int compress) {
    if (z) return static_cast<Box *>(new SpBox<cd>(r, c, n, i, j, d, compress));
    return static_cast<Box *>(new SpBox<double>(r, c, n, i, j, d, compress));
}
PyObject *box_convert(void *b, int mode) {
    return guarded([&] { return static_cast<Box *>(b)->convert(mode); });
}
void *box_data(void *b) { return static_cast<Box *>(b)->data(); }
long box_bytes(void *b) { return static_cast<Box *>(b)->bytes(); }
void box_free(void *b) {
    Box *p = static_cast<Box *>(b);
    if (p->bytes()) std::memset(p->data(), 0xa5, p->bytes()); // what does not live on its own is lost
    delete p;
}
PyObject *as_kind(int kind, PyObject *o) {
    switch (kind) {
    case 0: return shown<Eigen::MatrixX<double>>(o);
    case 1: return shown<Eigen::MatrixX<cd>>(o);
    case 2: return shown<Eigen::VectorX<double>>(o);
    case 3: return shown<Eigen::VectorX<cd>>(o);
    case 4: return shown<Eigen::MatrixX<float>>(o);
    default: return shown<Eigen::VectorX<int>>(o);
    }
}
PyObject *as_null(int kind) { return kind ? shown<Eigen::VectorX<double>>(nullptr) : shown<Eigen::MatrixX<double>>(nullptr); }
}
