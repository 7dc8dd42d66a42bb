// C06: saving and loading Hamiltonian matrices; damaged files.
#include "Hamiltonianmatrix.hpp"
#include "vh.hpp"
#include <dirent.h>
#include <map>
#include <sys/stat.h>
#include <unistd.h>

using namespace vh;
template <class S>
using Sp = Eigen::SparseMatrix<S>;
using Bytes = std::vector<unsigned char>;

static Bytes readf(std::string const &f) {
    std::ifstream i(f, std::ios::binary);
    return Bytes(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
}
static void writef(std::string const &f, Bytes const &b) {
    std::ofstream o(f, std::ios::binary | std::ios::trunc);
    o.write(reinterpret_cast<char const *>(b.data()), (std::streamsize)b.size());
}

// what a matrix contains: shape and stored entries with their exact bits
template <class S>
struct Content {
    long rows, cols;
    std::vector<std::pair<std::pair<long, long>, S>> e;
    static bool bits(S const &a, S const &b) { return std::memcmp(&a, &b, sizeof(S)) == 0; }
    bool operator==(Content const &o) const {
        if (rows != o.rows || cols != o.cols || e.size() != o.e.size()) return false;
        for (size_t k = 0; k < e.size(); ++k)
            if (e[k].first != o.e[k].first || !bits(e[k].second, o.e[k].second)) return false;
        return true;
    }
    bool operator!=(Content const &o) const { return !(*this == o); }
    std::string show() const {
        std::string s = str(rows, "x", cols, " {");
        for (size_t k = 0; k < e.size() && k < 8; ++k) s += str("(", e[k].first.first, ",", e[k].first.second, ")=", e[k].second, " ");
        return s + str("} nnz=", e.size());
    }
};
template <class S>
Content<S> content(Sp<S> const &m) {
    Content<S> c{(long)m.rows(), (long)m.cols(), {}};
    for (int k = 0; k < m.outerSize(); ++k)
        for (typename Sp<S>::InnerIterator it(m, k); it; ++it) c.e.push_back({{(long)it.row(), (long)it.col()}, it.value()});
    return c;
}
// is this sparse matrix something Eigen's routines can be used on?
template <class S>
std::string wellformed(Sp<S> const &m) {
    if (m.rows() < 0 || m.cols() < 0) return "negative size";
    auto const *o = m.outerIndexPtr();
    auto const *nz = m.innerNonZeroPtr();
    if (o == nullptr) return m.cols() == 0 ? "" : "no column index";
    long cap = (long)m.data().size();
    for (long k = 0; k < m.cols(); ++k) {
        long b = o[k], e = nz ? b + nz[k] : o[k + 1];
        if (b < 0 || e < b || e > cap) return str("column ", k, " spans ", b, "..", e, " of ", cap);
        for (long i = b; i < e; ++i) {
            if (m.innerIndexPtr()[i] < 0 || m.innerIndexPtr()[i] >= m.rows()) return str("row index ", m.innerIndexPtr()[i], " of ", m.rows());
            if (i > b && m.innerIndexPtr()[i] <= m.innerIndexPtr()[i - 1]) return str("row indices not increasing in column ", k);
        }
    }
    return "";
}

template <class S>
struct IsC : std::false_type {};
template <class T>
struct IsC<std::complex<T>> : std::true_type {};

double special(Rng &r) {
    static std::vector<double> const sp{0., -0., 1., -1., std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(),
                                        -std::numeric_limits<double>::infinity(), 4.9406564584124654e-324, 1e-310, 1.7976931348623157e308, 0.1, 1 / 3., 6.62607015e-34};
    return r.b(.3) ? r.pick(sp) : r.normal() * std::pow(10., r.u(-30, 30));
}
template <class S>
S value(Rng &r);
template <>
double value<double>(Rng &r) {
    return special(r);
}
template <>
std::complex<double> value<std::complex<double>>(Rng &r) {
    double a = special(r), b = r.b(.2) ? 0. : special(r);
    return {a, b};
}

template <class S>
Sp<S> randomMatrix(Rng &r, long rows, long cols) {
    std::map<std::pair<long, long>, S> t;
    if (rows > 0 && cols > 0) {
        int shape = (int)r.i(0, 7);
        long want = shape == 0 ? 0 : shape == 1 ? 1 : r.i(0, std::min<long>(rows * cols, 60));
        for (long k = 0; k < want; ++k) {
            long rr = r.i(0, rows - 1), cc = r.i(0, cols - 1);
            if (shape == 2) cc = cols - 1;                                       // only the last column
            if (shape == 3) cc = 0;                                              // only the first
            if (shape == 4) cc = std::min(cols - 1, cols / 2 + cc % (cols - cols / 2)); // leading empty columns
            if (shape == 5) cc = cc - cc % 3;                                    // empty columns in between
            if (shape == 6) rr = cc % rows;                                      // diagonal
            t[{cc, rr}] = value<S>(r);
        }
    }
    Sp<S> m(rows, cols);
    std::vector<Eigen::Triplet<S>> tr;
    for (auto const &x : t) tr.emplace_back((int)x.first.second, (int)x.first.first, x.second);
    m.setFromTriplets(tr.begin(), tr.end());
    return m;
}

static long saves = 0, loads = 0, refused = 0, accepted = 0, damaged = 0, ops = 0;

template <class S>
Hamiltonianmatrix<S> randomHam(Rng &r, bool consistent) {
    long nb = r.b(.12) ? 0 : r.b(.15) ? 1 : r.i(1, 12), nc = r.b(.1) ? 0 : r.b(.15) ? 1 : r.i(1, 14);
    if (consistent) return Hamiltonianmatrix<S>(randomMatrix<S>(r, nb, nb), randomMatrix<S>(r, nc, nb));
    long a = r.i(0, 9), b = r.i(0, 9), c = r.i(0, 9), d = r.i(0, 9);
    return Hamiltonianmatrix<S>(randomMatrix<S>(r, a, b), randomMatrix<S>(r, c, d));
}

template <class S>
std::pair<Content<S>, Content<S>> both(Hamiltonianmatrix<S> const &h) {
    return {content<S>(h.entries()), content<S>(h.basis())};
}

// save, load into an object with a history, compare
template <class S>
void roundtrip(Rng &r, Hamiltonianmatrix<S> &h, std::string const &c) {
    std::string f = scratch() + "/m" + std::to_string(r.i(0, 3)) + ".mat";
    auto before = both(h);
    h.save(f);
    ++saves;
    if (both(h) != before) out().violation("save-changes", "saving changed the matrices", c);
    Hamiltonianmatrix<S> g;
    if (r.b(.5)) {
        g = randomHam<S>(r, r.b());
        if (r.b()) g.serialize();
        if (r.b(.3)) g = h;
    }
    bool ok = false;
    if (r.b(.7)) {
        ok = g.load(f);
    } else {
        bytes_t b = h.serialize();
        g.deserialize(b);
        ok = true;
        Bytes fb = readf(f);
        if (!(fb.size() == b.size() && std::equal(fb.begin(), fb.end(), b.begin()))) out().violation("file-content", "file differs from serialize()", c);
    }
    ++loads;
    out().eval(str(IsC<S>::value ? "C" : "R", " ", c, " ", before.first.show(), " ", before.second.show()), !before.first.e.empty() || !before.second.e.empty());
    if (!ok) return out().violation("roundtrip-refused", "a saved matrix could not be loaded: " + before.first.show() + before.second.show(), c);
    auto after = both(g);
    if (after.first != before.first) out().violation("roundtrip-entries", "saved " + before.first.show() + " loaded " + after.first.show(), c);
    if (after.second != before.second) out().violation("roundtrip-basis", "saved " + before.second.show() + " loaded " + after.second.show(), c);
    std::string w = wellformed<S>(static_cast<Hamiltonianmatrix<S> const &>(g).entries()) + wellformed<S>(static_cast<Hamiltonianmatrix<S> const &>(g).basis());
    if (!w.empty()) out().violation("roundtrip-malformed", w, c);
    if (g.num_basisvectors() != (size_t)after.second.cols || g.num_coordinates() != (size_t)after.second.rows) out().violation("roundtrip-size", "number of states", c);
    // the reloaded object stores the same bytes again, also when it has to build them itself
    Hamiltonianmatrix<S> fresh(static_cast<Hamiltonianmatrix<S> const &>(g).entries(), static_cast<Hamiltonianmatrix<S> const &>(g).basis());
    std::string f2 = scratch() + "/again.mat";
    fresh.save(f2);
    if (readf(f) != readf(f2)) out().violation("resave", "saving the reloaded matrices gives another file", c);
    if (fresh.hashEntries() != h.hashEntries() || g.hashEntries() != h.hashEntries() || fresh.hashBasis() != h.hashBasis()) out().violation("hash", "equal matrices, different hash", c);
}

template <class S>
void histories(Rng &r, long count) {
    for (long it = 0; it < count; ++it) {
        bool consistent = r.b(.7);
        Hamiltonianmatrix<S> h = randomHam<S>(r, consistent);
        std::string c = str(IsC<S>::value ? "complex" : "real", " history ", it, ":");
        long steps = r.i(1, 6);
        for (long k = 0; k < steps; ++k) {
            auto const &hc = h;
            switch (r.i(0, 9)) {
            case 0: {
                long nb = r.i(1, 8), nc = r.i(1, 8);
                c += str(" compress ", nb, "x", nc);
                std::map<std::pair<int, int>, int> seen;
                for (long j = r.i(0, 12); j > 0; --j) {
                    int a = (int)r.i(0, nb - 1), b = (int)r.i(0, nb - 1), d = (int)r.i(0, nc - 1), e = (int)r.i(0, nb - 1);
                    if (!seen[{a, b}]++) h.addEntries(a, b, value<S>(r));
                    if (!seen[{-1 - d, e}]++) h.addBasis(d, e, value<S>(r));
                }
                h.compress(nb, nc);
                consistent = true;
                break;
            }
            case 1:
                if (hc.entries().nonZeros() > 0) {
                    c += " edit";
                    h.entries().coeffRef(0, 0) = value<S>(r);
                }
                break;
            case 2:
                c += " plus";
                h += Hamiltonianmatrix<S>(randomMatrix<S>(r, hc.entries().rows(), hc.entries().cols()), hc.basis());
                break;
            case 3:
                c += " minus";
                h -= Hamiltonianmatrix<S>(randomMatrix<S>(r, hc.entries().rows(), hc.entries().cols()), hc.basis());
                break;
            case 4:
                c += " scale";
                h = h * S(2.5);
                break;
            case 5:
                c += " scale2";
                h = 0.3 * h;
                break;
            case 6:
                if (consistent && hc.basis().cols() > 0) {
                    c += " cutoff";
                    h.applyCutoff(std::abs(r.normal()) + .1);
                }
                break;
            case 7:
                if (consistent && hc.basis().cols() > 0) {
                    c += " remove";
                    std::vector<bool> nec(h.num_coordinates(), false);
                    for (size_t q = 0; q < nec.size(); ++q) nec[q] = r.b(.8);
                    if (r.b())
                        h.removeUnnecessaryBasisvectors(nec);
                    else
                        h.removeUnnecessaryStates(nec);
                }
                break;
            case 8:
                c += " insertbasis";
                if (hc.basis().rows() > 0 && hc.basis().cols() > 0) h.basis().coeffRef(hc.basis().rows() - 1, hc.basis().cols() - 1) = value<S>(r);
                break;
            default: {
                c += " assign";
                h = randomHam<S>(r, consistent);
            }
            }
            ++ops;
            if (r.b(.6)) roundtrip<S>(r, h, c);
            if (r.b(.15)) {
                c += " reload";
                std::string f = scratch() + "/x.mat";
                h.save(f);
                h.load(f);
            }
        }
        roundtrip<S>(r, h, c);
    }
}

// An independent reader of the format that classifies a byte string: is it the image of two matrices?
struct Image {
    bool parsed = false, wellformed = false, iscomplex = false, canonical = true;
};
struct Reader {
    Bytes const &b;
    size_t p = 0;
    bool bad = false, canonical = true;
    explicit Reader(Bytes const &b) : b(b) {}
    template <class T>
    T raw() {
        T v{};
        if (p + sizeof(T) > b.size()) {
            bad = true;
            return v;
        }
        std::memcpy(&v, &b[p], sizeof(T));
        p += sizeof(T);
        return v;
    }
    // one number of a stored type, as double (all that matters here) - or failure
    int size(int type) {
        switch (type) {
        case 1008: case 1108: case 3000: case 4000: return 1;
        case 1016: case 1116: return 2;
        case 1032: case 1132: case 2032: return 4;
        case 1064: case 1164: case 2064: return 8;
        }
        bad = true;
        return 0;
    }
    double num(int type) {
        switch (type) {
        case 1008: return raw<int8_t>();
        case 1016: return raw<int16_t>();
        case 1032: return raw<int32_t>();
        case 1064: return (double)raw<int64_t>();
        case 1108: return raw<uint8_t>();
        case 1116: return raw<uint16_t>();
        case 1132: return raw<uint32_t>();
        case 1164: return (double)raw<uint64_t>();
        case 2032: return raw<float>();
        case 2064: return raw<double>();
        case 3000: return raw<char>();
        case 4000: return raw<uint8_t>() != 0;
        }
        bad = true;
        return 0;
    }
    double scalar(int expect) {
        int t = raw<uint16_t>();
        if (t != expect) canonical = false;
        return num(t);
    }
    std::vector<double> vec(int expect) {
        double len = scalar(1032);
        std::vector<double> v;
        int t = raw<uint16_t>();
        if (t != expect) canonical = false;
        int sz = size(t);
        if (bad || !(len >= 0) || len * sz > (double)(b.size() - p)) {
            bad = true;
            return v;
        }
        for (long k = 0; k < (long)len; ++k) v.push_back(num(t));
        return v;
    }
};
static Image classify(Bytes const &b) {
    Image im;
    Reader rd(b);
    bool wf = true;
    for (int part = 0; part < 2; ++part) {
        double flags = rd.scalar(1108), rows = rd.scalar(1032), cols = rd.scalar(1032);
        bool cx = std::fmod(std::floor(flags / 2), 2) == 1;
        auto data = rd.vec(2064);
        std::vector<double> imag;
        if (cx) imag = rd.vec(2064);
        auto ind = rd.vec(1032), ptr = rd.vec(1032);
        if (rd.bad) return im;
        if (part == 0) im.iscomplex = cx;
        if (flags != 0 && flags != 2) rd.canonical = false; // unknown flags: either answer is fine
        wf = wf && cx == im.iscomplex && rows >= 0 && cols >= 0 && std::fmod(flags, 2) == 0 && (!cx || imag.size() == data.size()) &&
            ind.size() == data.size() && (double)ptr.size() == cols;
        if (wf) {
            double prev = 0;
            for (size_t k = 0; k < ptr.size(); ++k) {
                if (ptr[k] < prev || ptr[k] > (double)ind.size() || (k == 0 && ptr[k] != 0)) wf = false;
                prev = ptr[k];
            }
            if (ptr.empty() && !ind.empty()) wf = false;
            for (double i : ind)
                if (!(i >= 0 && i < rows)) wf = false;
            for (size_t k = 0; wf && k < ptr.size(); ++k) {
                size_t e = k + 1 < ptr.size() ? (size_t)ptr[k + 1] : ind.size();
                for (size_t i = (size_t)ptr[k] + 1; i < e; ++i)
                    if (ind[i] <= ind[i - 1]) wf = false;
            }
        }
    }
    im.parsed = true;
    im.canonical = rd.canonical && rd.p == b.size();
    im.wellformed = wf;
    return im;
}

template <class S>
void damage(Rng &r, Bytes const &bytes, std::string const &c, char const *kind) {
    std::string f = scratch() + "/d.mat";
    writef(f, bytes);
    Image im = classify(bytes);
    auto old = randomHam<S>(r, true);
    if (r.b(.5)) old.serialize();
    auto before = both(old);
    bool ok = false;
    bool viaBytes = r.b(.3);
    try {
        if (viaBytes) {
            bytes_t b(bytes.begin(), bytes.end());
            old.deserialize(b);
            ok = true;
        } else {
            ok = old.load(f);
        }
    } catch (std::exception const &e) {
        if (!viaBytes) out().violation(str("load-throws:", kind), str("load() threw ", e.what()), c);
    }
    ++damaged;
    out().eval(str(kind, " ", IsC<S>::value, " ", bytes.size(), " ", c), true);
    auto const &oc = old;
    if (ok) {
        ++accepted;
        std::string w = wellformed<S>(oc.entries()) + wellformed<S>(oc.basis());
        if (!w.empty()) return out().violation(str("malformed-accepted:", kind), "load() succeeded but delivered a malformed matrix: " + w, c);
        if (!im.parsed) return out().violation(str("truncated-accepted:", kind), str("load() succeeded on a file that does not contain two matrices (", bytes.size(), " bytes)"), c);
        if (!im.wellformed) return out().violation(str("corrupt-accepted:", kind), "load() succeeded on a file whose parts do not fit together", c);
        if (im.iscomplex != IsC<S>::value) return out().violation("wrong-type-accepted", "real and complex mixed up", c);
        // touch everything
        Sp<S> a = oc.entries(), b = oc.basis();
        volatile double sum = 0;
        for (auto const *q : {&a, &b})
            for (int k = 0; k < q->outerSize(); ++k)
                for (typename Sp<S>::InnerIterator it(*q, k); it; ++it) sum = sum + std::abs(it.value());
        if (im.canonical) {
            Hamiltonianmatrix<S> fresh(oc.entries(), oc.basis());
            bytes_t again = fresh.serialize();
            if (!(again.size() == bytes.size() && std::equal(again.begin(), again.end(), bytes.begin())))
                out().violation(str("altered:", kind), "the loaded matrices are not those of the file", c);
        }
    } else {
        ++refused;
        if (im.parsed && im.wellformed && im.canonical && im.iscomplex == IsC<S>::value)
            return out().violation(str("valid-refused:", kind), "a file that describes two matrices was refused", c);
        // the object is still usable and does not pretend to hold the damaged bytes
        auto after = both(old);
        std::string w = wellformed<S>(oc.entries()) + wellformed<S>(oc.basis());
        if (!w.empty()) out().violation(str("malformed-after-failure:", kind), w, c);
        if (after != before && !(after.first.e.empty() && after.second.e.empty()))
            out().violation(str("half-loaded:", kind), "after a refused file the object holds a matrix that was never saved", c);
        if (r.b(.3)) {
            bytes_t now = old.serialize();
            Hamiltonianmatrix<S> fresh(oc.entries(), oc.basis());
            if (now != fresh.serialize()) out().violation("stale-bytes", "after a refused file the object saves other bytes than it holds", c);
        }
    }
}

template <class S>
Bytes image(Rng &r, bool small) {
    Hamiltonianmatrix<S> h;
    for (;;) {
        h = small ? Hamiltonianmatrix<S>(randomMatrix<S>(r, r.i(0, 3), r.i(0, 3)), randomMatrix<S>(r, r.i(0, 3), r.i(0, 3))) : randomHam<S>(r, r.b());
        bytes_t b = h.serialize();
        if (!small || b.size() < 260) return Bytes(b.begin(), b.end());
    }
}

template <class S>
void faults(Rng &r, long files, long mutations) {
    for (long k = 0; k < files; ++k) {
        Bytes b = image<S>(r, k % 3 != 0);
        std::string c0 = str(IsC<S>::value ? "complex" : "real", " file ", k, " of ", b.size(), " bytes");
        // every crash point of the writer
        for (size_t len = 0; len < b.size(); len += (b.size() > 400 ? (size_t)r.i(1, 5) : 1)) damage<S>(r, Bytes(b.begin(), b.begin() + (long)len), str(c0, " cut at ", len), "truncation");
        Bytes longer = b;
        for (long q = r.i(1, 9); q > 0; --q) longer.push_back((unsigned char)r.i(0, 255));
        if (r.b()) {
            auto im = classify(longer);
            (void)im;
            damage<S>(r, longer, str(c0, " with trailing bytes"), "trailing");
        }
        for (long q = 0; q < mutations; ++q) {
            Bytes m = b;
            std::string c = str(c0, " mutation ", q, ":");
            for (long z = r.b(.7) ? 1 : r.i(1, 4); z > 0; --z) {
                size_t pos = (size_t)r.i(0, (long)m.size() - 1);
                switch (r.i(0, 7)) {
                case 0:
                    m[pos] ^= (unsigned char)(1u << r.i(0, 7));
                    c += str(" flip@", pos);
                    break;
                case 1:
                    m[pos] = (unsigned char)r.pick(std::vector<int>{0, 255, 127, 128, 1});
                    c += str(" set@", pos);
                    break;
                case 2: { // a 32 bit number: lengths, shapes, indices
                    int32_t v = r.pick(std::vector<int32_t>{-1, 0, 1, 2, 3, 1 << 20, 1 << 28, 1 << 29, std::numeric_limits<int32_t>::max(), std::numeric_limits<int32_t>::min()});
                    if (pos + 4 <= m.size()) std::memcpy(&m[pos], &v, 4);
                    c += str(" int ", v, "@", pos);
                    break;
                }
                case 3: { // a type tag
                    uint16_t v = r.pick(std::vector<uint16_t>{1008, 1016, 1032, 1064, 1108, 1116, 1132, 1164, 2032, 2064, 3000, 4000, 0, 65535});
                    std::vector<size_t> tags;
                    for (size_t i = 0; i + 2 <= m.size(); ++i) {
                        uint16_t t;
                        std::memcpy(&t, &m[i], 2);
                        if (t == 1032 || t == 2064 || t == 1108) tags.push_back(i);
                    }
                    if (!tags.empty()) pos = r.pick(tags);
                    if (pos + 2 <= m.size()) std::memcpy(&m[pos], &v, 2);
                    c += str(" tag ", v, "@", pos);
                    break;
                }
                case 4:
                    m.erase(m.begin() + (long)pos, m.begin() + (long)std::min(m.size(), pos + (size_t)r.i(1, 8)));
                    c += str(" erase@", pos);
                    break;
                case 5:
                    m.insert(m.begin() + (long)pos, (size_t)r.i(1, 8), (unsigned char)r.i(0, 255));
                    c += str(" insert@", pos);
                    break;
                case 6: { // an array with more or fewer elements than it should have
                    std::vector<size_t> arrays;
                    for (size_t i = 0; i + 8 <= m.size(); ++i) {
                        uint16_t t, e;
                        int32_t len;
                        std::memcpy(&t, &m[i], 2);
                        std::memcpy(&len, &m[i + 2], 4);
                        std::memcpy(&e, &m[i + 6], 2);
                        if (t == 1032 && (e == 1032 || e == 2064) && len >= 0 && (size_t)len * (e == 1032 ? 4 : 8) <= m.size() - i - 8) arrays.push_back(i);
                    }
                    if (arrays.empty()) break;
                    pos = r.pick(arrays);
                    int32_t len;
                    uint16_t e;
                    std::memcpy(&len, &m[pos + 2], 4);
                    std::memcpy(&e, &m[pos + 6], 2);
                    size_t sz = e == 1032 ? 4 : 8, end = pos + 8 + (size_t)len * sz;
                    if (len > 0 && r.b()) {
                        m.erase(m.begin() + (long)(end - sz), m.begin() + (long)end);
                        --len;
                    } else {
                        m.insert(m.begin() + (long)end, sz, (unsigned char)0);
                        ++len;
                    }
                    std::memcpy(&m[pos + 2], &len, 4);
                    c += str(" array@", pos, " now ", len);
                    break;
                }
                default: { // small change of a number: the most plausible wrong index
                    int32_t v;
                    if (pos + 4 <= m.size()) {
                        std::memcpy(&v, &m[pos], 4);
                        v = (int32_t)((uint32_t)v + (uint32_t)r.i(-3, 3));
                        std::memcpy(&m[pos], &v, 4);
                    }
                    c += str(" add@", pos);
                }
                }
                if (m.empty()) break;
            }
            damage<S>(r, m, c, "mutation");
        }
        // read with the other number type
        using T = typename std::conditional<IsC<S>::value, double, std::complex<double>>::type;
        damage<T>(r, b, c0 + " read with the other number type", "othertype");
        // arbitrary bytes
        Bytes rnd((size_t)r.i(0, 80));
        for (auto &x : rnd) x = (unsigned char)r.i(0, 255);
        damage<S>(r, rnd, str("random bytes ", k), "random");
    }
}

static long fds() {
    long k = 0;
    DIR *d = opendir("/proc/self/fd");
    while (d && readdir(d)) ++k;
    if (d) closedir(d);
    return k;
}

int main() {
    std::cerr.setstate(std::ios::failbit);
    std::cout.setstate(std::ios::failbit);
    Rng r(6);
    long fd0 = fds();
    histories<double>(r, n(500, 20000));
    histories<std::complex<double>>(r, n(500, 20000));
    faults<double>(r, n(30, 1500), n(90, 200));
    faults<std::complex<double>>(r, n(30, 1500), n(90, 200));

    // places that are not files, or cannot be written
    {
        std::string c = "special paths";
        Hamiltonianmatrix<double> h(randomMatrix<double>(r, 3, 3), randomMatrix<double>(r, 3, 3)), g;
        for (std::string p : {scratch() + "/nothing.mat", scratch() + "/no/such/dir.mat", std::string(""), std::string("/dev/null")}) {
            bool ok = true;
            try {
                ok = g.load(p);
            } catch (std::exception const &e) {
                out().violation("load-throws:special", str("load(", p, ") threw ", e.what()), c);
                ok = false;
            }
            if (ok) out().violation("special-accepted", "load() succeeded on " + p, c);
            out().eval("special " + p.substr(p.size() > 12 ? p.size() - 12 : 0));
        }
        for (std::string p : {scratch() + "/no/such/dir.mat", std::string("/dev/full")}) {
            out().casebegin("save to " + p);
            throws([&] { h.save(p); });
            if (g.load(p)) out().violation("special-accepted", "load() succeeded on " + p, c);
            roundtrip<double>(r, h, "after a failed save");
        }
        // reload over a longer file with the same name
        std::string f = scratch() + "/over.mat";
        Hamiltonianmatrix<double> big(randomMatrix<double>(r, 40, 40), randomMatrix<double>(r, 50, 40));
        big.save(f);
        h.save(f);
        if (!g.load(f) || both(g) != both(h)) out().violation("overwrite", "a shorter matrix saved over a longer one does not reload", c);
    }
    if (fds() > fd0 + 2) out().violation("leaked-files", str("open files grew from ", fd0, " to ", fds()), "all");
    out().count("saves", saves);
    out().count("loads", loads);
    out().count("operations", ops);
    out().count("damaged_files", damaged);
    out().count("refused", refused);
    out().count("accepted", accepted);
    VH_MAIN_END();
}
