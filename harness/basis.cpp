// C09: bases of the backend against a brute-force enumeration; restriction and export.
#include "Basisnames.hpp"
#include "vh.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <tuple>

using namespace vh;
using Q = std::tuple<int, int, float, float>;
using Q2 = std::pair<Q, Q>;

static Q key(StateOneOld const &s) { return Q{s.n, s.l, s.j, s.m + 0.f}; }
static Q2 key(StateTwoOld const &s) { return {Q{s.n[0], s.l[0], s.j[0], s.m[0] + 0.f}, Q{s.n[1], s.l[1], s.j[1], s.m[1] + 0.f}}; }
static std::string show(Q const &q) { return str(std::get<0>(q), "/", std::get<1>(q), "/", std::get<2>(q), "/", std::get<3>(q)); }
static std::string show(Q2 const &q) { return show(q.first) + "+" + show(q.second); }

static std::set<Q> brute(Q const &s, int dn, int dl, int dj, int dm) {
    std::set<Q> r;
    auto [n0, l0, j0, m0] = s;
    for (int n = std::max(1, n0 - dn); n <= n0 + dn; ++n)
        for (int l = 0; l < n; ++l)
            for (float j = std::abs(l - .5f); j <= l + .5f; ++j)
                for (float m = -j; m <= j; ++m)
                    if ((dl < 0 || std::abs(l - l0) <= dl) && (dj < 0 || std::abs(j - j0) <= dj) && (dm < 0 || std::abs(m - m0) <= dm)) r.insert(Q{n, l, j, m + 0.f});
    return r;
}

template <class B, class K>
static void judge(std::string const &kind, B const &b, std::set<K> const &want, std::string const &c, bool inorder) {
    std::set<K> got;
    std::set<unsigned> idx;
    size_t pos = 0;
    for (auto const &s : b) {
        K k = key(s);
        if (!got.insert(k).second) out().violation(kind + ":duplicate", show(k), c);
        if (!want.count(k)) out().violation(kind + ":foreign-state", show(k), c);
        if (!idx.insert(s.idx).second) out().violation(kind + ":number-repeated", str(s.idx), c);
        if (s.idx >= b.size()) out().violation(kind + ":number-gap", str(s.idx, " of ", b.size()), c);
        if (inorder && s.idx != pos) out().violation(kind + ":number-order", str("state ", pos, " has number ", s.idx), c);
        ++pos;
    }
    for (auto const &k : want)
        if (!got.count(k)) {
            out().violation(kind + ":missing-state", show(k), c);
            break;
        }
    if (b.size() != want.size() || b.dim() != want.size()) out().violation(kind + ":size", str("size ", b.size(), " dim ", b.dim(), " expected ", want.size()), c);
}

template <class B>
static void exported(std::string const &kind, B &b, std::string const &c) {
    std::string p = scratch() + "/basis.csv";
    b.save(p);
    std::ifstream f(p);
    std::string line;
    size_t i = 0;
    while (std::getline(f, line)) {
        if (i >= b.size()) {
            ++i;
            break;
        }
        auto const &s = b.get(i++);
        std::istringstream is(line);
        double x;
        std::vector<double> v;
        while (is >> x) v.push_back(x);
        std::vector<double> e = {(double)s.idx};
        if constexpr (std::is_same_v<B, BasisnamesOne>)
            e.insert(e.end(), {(double)s.n, (double)s.l, s.j, s.m});
        else
            e.insert(e.end(), {(double)s.n[0], (double)s.l[0], s.j[0], s.m[0], (double)s.n[1], (double)s.l[1], s.j[1], s.m[1]});
        if (v != e) {
            out().violation(kind + ":export", "line " + line, c);
            break;
        }
    }
    if (i != b.size()) out().violation(kind + ":export-lines", str(i, " of ", b.size()), c);
}

template <class B>
static void restrict_(std::string const &kind, B &b, Rng &r, std::string const &c) {
    size_t maxidx = 0;
    for (auto const &s : b) maxidx = std::max<size_t>(maxidx, s.idx);
    std::vector<bool> keep(b.size() ? maxidx + 1 : 0);
    double p = r.pick(std::vector<double>{0, .05, .5, .9, 1});
    for (size_t i = 0; i < keep.size(); ++i) keep[i] = r.b(p);
    using K = decltype(key(b.get(0)));
    std::vector<K> want;
    for (auto const &s : b)
        if (keep[s.idx]) want.push_back(key(s));
    b.removeUnnecessaryStates(keep);
    if (b.size() != want.size() || b.dim() != want.size()) {
        out().violation(kind + ":restrict-size", str(b.size(), " dim ", b.dim(), " expected ", want.size()), c);
        return;
    }
    size_t i = 0;
    for (auto const &s : b) {
        if (key(s) != want[i]) out().violation(kind + ":restrict-state", str("position ", i), c);
        if (s.idx != i) out().violation(kind + ":restrict-number", str("position ", i, " number ", s.idx), c);
        ++i;
    }
}

int main() {
    Rng r(9);
    auto rq = [&](int nmax) {
        int n = (int)r.i(1, nmax), l = r.b(.7) ? (int)r.i(0, std::min(n - 1, 3)) : (int)r.i(0, n - 1);
        float j = l == 0 ? .5f : l + (r.b() ? .5f : -.5f), m = -j + (float)r.i(0, (long)(2 * j));
        return Q{n, l, j, m};
    };
    long states = 0;
    for (long it = 0; it < n(700, 20000); ++it) {
        bool pair = r.b(.6);
        int nmax = pair ? 7 : 14;
        Q a = rq(nmax), b = r.b(.2) ? a : rq(nmax);
        int dn = (int)r.i(0, pair ? 1 : 3), dl = r.b(.3) ? -1 : (int)r.i(0, 3), dj = r.b(.3) ? -1 : (int)r.i(0, 3), dm = r.b(.3) ? -1 : (int)r.i(0, 4);
        Configuration conf;
        auto put = [&](Q const &q, std::string const &k, std::string const &sp) {
            conf["species" + k] << sp;
            conf["n" + k] << std::get<0>(q);
            conf["l" + k] << std::get<1>(q);
            conf["j" + k] << std::get<2>(q);
            conf["m" + k] << std::get<3>(q);
        };
        bool same = r.b(.6);
        put(a, "1", "Rb");
        put(b, "2", same ? "Rb" : "Cs");
        conf["deltaNSingle"] << dn;
        conf["deltaLSingle"] << dl;
        conf["deltaJSingle"] << dj;
        conf["deltaMSingle"] << dm;
        conf["missingCalc"] << "true";
        conf["missingWhittaker"] << "false";
        std::string c = str("start ", show(a), " and ", show(b), " deltas ", dn, ",", dl, ",", dj, ",", dm, same ? "" : " different species");
        guarded("basis", c, [&] {
            std::set<Q> wa = brute(a, dn, dl, dj, dm), wb = brute(b, dn, dl, dj, dm), wu = wa;
            wu.insert(wb.begin(), wb.end());
            auto b1 = std::make_shared<BasisnamesOne>(BasisnamesOne::fromFirst(conf));
            auto b2 = std::make_shared<BasisnamesOne>(BasisnamesOne::fromSecond(conf));
            judge("first", *b1, wa, c, true);
            judge("second", *b2, wb, c, true);
            if (b1->initial().size() != 1 || key(b1->initial()[0]) != a || b2->initial().size() != 1 || key(b2->initial()[0]) != b) out().violation("initial", "", c);
            if (!b1->constructedFromFirst() || b2->constructedFromFirst()) out().violation("constructed-from", "", c);
            states += (long)(wa.size() + wb.size());
            if (r.b(.3)) exported("first", *b1, c);
            std::shared_ptr<BasisnamesOne> bb;
            bool threw = throws([&] { bb = std::make_shared<BasisnamesOne>(BasisnamesOne::fromBoth(conf)); });
            if (threw == same) out().violation("both-species", str("same species: ", same, " error: ", threw), c);
            if (bb) {
                judge("both", *bb, wu, c, false);
                states += (long)wu.size();
                if (r.b(.3)) exported("both", *bb, c);
            }
            if (pair) {
                if (r.b(.3)) restrict_("first", *b1, r, c);
                std::set<Q2> w2;
                for (auto const &x : *b1)
                    for (auto const &y : *b2) w2.insert({key(x), key(y)});
                if (w2.size() < 60000) {
                    auto p = std::make_shared<BasisnamesTwo>(b1, b2);
                    judge("pair", *p, w2, c, true);
                    states += (long)w2.size();
                    if (key(p->initial()) != Q2{a, b}) out().violation("pair-initial", "", c);
                    auto ini = [&] {
                        for (auto const &s : *p)
                            if (key(s) == Q2{a, b} && p->initial().idx != s.idx) out().violation("pair-initial-number", str(p->initial().idx, " instead of ", s.idx), c);
                    };
                    ini();
                    restrict_("pair", *p, r, c);
                    ini();
                    if (r.b(.3)) exported("pair", *p, c);
                    // one-atom bases drawn from a pair basis
                    std::set<Q> f, s2;
                    for (auto const &x : *p) f.insert(key(x).first), s2.insert(key(x).second);
                    auto cp = std::const_pointer_cast<BasisnamesTwo const>(p);
                    judge("first-of-pair", BasisnamesOne::fromFirst(cp), f, c, false);
                    judge("second-of-pair", BasisnamesOne::fromSecond(cp), s2, c, false);
                    // restriction that keeps the numbers
                    std::vector<bool> keep(p->size());
                    for (size_t i = 0; i < keep.size(); ++i) keep[i] = r.b();
                    std::vector<std::pair<unsigned, Q2>> want;
                    for (auto const &x : *p)
                        if (keep[x.idx]) want.push_back({x.idx, key(x)});
                    p->removeUnnecessaryStatesKeepIdx(keep);
                    size_t i = 0;
                    bool ok = p->size() == want.size();
                    for (auto const &x : *p)
                        if (ok && (want[i].first != x.idx || want[i].second != key(x))) ok = false;
                        else ++i;
                    if (!ok) out().violation("pair-restrict-keep", "", c);
                }
                if (bb && wu.size() < 200) {
                    if (r.b(.7)) restrict_("both", *bb, r, c);
                    std::set<Q2> w;
                    for (auto const &x : *bb)
                        for (auto const &y : *bb) w.insert({key(x), key(y)});
                    BasisnamesTwo p(bb);
                    judge("pair-of-both", p, w, c, true);
                }
                if (!throws([&] { BasisnamesTwo p(b1); }) || (bb && !throws([&] { BasisnamesTwo p(bb, b2); }))) out().violation("pair-construction", "an unsupported combination was accepted", c);
            } else {
                restrict_("first", *b1, r, c);
                restrict_("first", *b1, r, c);
                if (bb) restrict_("both", *bb, r, c);
                if (r.b(.3)) exported("first", *b1, c);
            }
            out().eval(c);
        });
    }
    out().count("states_judged", states);
    VH_MAIN_END();
}
