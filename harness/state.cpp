// C10: identity, order, hash, reflection, text and serialisation of states against tuples.
#include "Constants.hpp"
#include "State.hpp"
#include "StateOld.hpp"
#include "vh.hpp"
#include <algorithm>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <map>
#include <set>
#include <tuple>
#include <unordered_map>

using namespace vh;
using Q = std::tuple<std::string, int, int, float, float>;
using Q2 = std::pair<Q, Q>;

static StateOne mk(Q const &q) {
    if (std::get<1>(q) == 0) return StateOne(std::get<0>(q));
    return StateOne(std::get<0>(q), std::get<1>(q), std::get<2>(q), std::get<3>(q), std::get<4>(q));
}
static std::string show(Q const &q) { return str(std::get<0>(q), ",", std::get<1>(q), ",", std::get<2>(q), ",", std::get<3>(q), ",", std::get<4>(q)); }
static std::string show(Q2 const &q) { return show(q.first) + " ; " + show(q.second); }
static StateTwo mk(Q2 const &q) { return StateTwo(mk(q.first), mk(q.second)); }

template <class S, class T>
static void relations(char const *kind, std::vector<T> const &u, std::vector<S> const &s) {
    size_t N = u.size();
    long eq = 0, lt = 0;
    std::string k(kind);
    for (size_t i = 0; i < N; ++i) {
        if (!(s[i] == s[i])) out().violation(k + ":reflexive", "a state differs from itself", show(u[i]));
        S copy = s[i], again = mk(u[i]);
        if (!(copy == s[i]) || !(again == s[i]) || again.getHash() != s[i].getHash() || copy.getHash() != s[i].getHash() || again.str() != s[i].str())
            out().violation(k + ":rebuild", "a state built again from the same numbers differs (equality, hash or text)", show(u[i]));
        for (size_t j = 0; j < N; ++j) {
            bool e = u[i] == u[j], l = u[i] < u[j];
            std::string c = show(u[i]) + " <> " + show(u[j]);
            if ((s[i] == s[j]) != e) out().violation(k + ":equality", "equality disagrees with the quantum numbers", c);
            if ((s[i] != s[j]) == e) out().violation(k + ":inequality", "inequality disagrees with the quantum numbers", c);
            if (e && std::hash<S>{}(s[i]) != std::hash<S>{}(s[j])) out().violation(k + ":hash", "equal states have different hashes", c);
            bool a = s[i] < s[j], b = s[j] < s[i];
            if ((int)a + (int)b + (int)e != 1) out().violation(k + ":trichotomy", str("a<b ", a, " b<a ", b, " equal ", e), c);
            if ((s[i] <= s[j]) != (a || e)) out().violation(k + ":less-equal", "", c);
            eq += e;
            lt += a;
            (void)l;
        }
        out().eval(k + show(u[i]));
    }
    // transitivity: in a sorted sequence every earlier element precedes every later one
    std::vector<size_t> idx(N);
    for (size_t i = 0; i < N; ++i) idx[i] = i;
    std::stable_sort(idx.begin(), idx.end(), [&](size_t a, size_t b) { return s[a] < s[b]; });
    for (size_t i = 0; i < N; ++i)
        for (size_t j = i + 1; j < N; ++j)
            if (s[idx[j]] < s[idx[i]]) out().violation(k + ":transitivity", "ordering is not transitive", show(u[idx[i]]) + " / " + show(u[idx[j]]));
    out().count(k + "_equal_pairs", eq);
    out().count(k + "_ordered_pairs", lt);
    // distinct texts, use as keys
    std::map<std::string, size_t> text;
    std::unordered_map<S, size_t> um;
    std::set<S> st;
    std::set<T> ref;
    for (size_t i = 0; i < N; ++i) {
        auto p = text.insert({s[i].str(), i});
        if (!p.second && !(u[p.first->second] == u[i])) out().violation(k + ":text", "distinct states have the text " + s[i].str(), show(u[i]) + " / " + show(u[p.first->second]));
        std::ostringstream os;
        os << s[i];
        if (os.str() != s[i].str()) out().violation(k + ":stream", os.str() + " / " + s[i].str(), show(u[i]));
        auto q = um.insert({s[i], i});
        if (!q.second && !(u[q.first->second] == u[i])) out().violation(k + ":map-key", "", show(u[i]));
        st.insert(s[i]);
        ref.insert(u[i]);
    }
    if (um.size() != ref.size() || st.size() != ref.size()) out().violation(k + ":containers", str("hash map ", um.size(), " ordered set ", st.size(), " distinct states ", ref.size()));
}

template <class S>
static S through(S const &s, bool json) {
    std::stringstream b;
    S t;
    if (json) {
        { cereal::JSONOutputArchive a(b); a(s); }
        cereal::JSONInputArchive a(b);
        a(t);
    } else {
        { cereal::BinaryOutputArchive a(b); a(s); }
        cereal::BinaryInputArchive a(b);
        a(t);
    }
    return t;
}

int main() {
    Rng r(6);
    std::vector<Q> u;
    std::vector<std::string> species = {"Rb", "Cs", "Sr1", "Sr3", "Rb2", "R"};
    for (auto const &sp : species) {
        float s = isdigit(sp.back()) ? (sp.back() - '1') / 2.f : .5f;
        for (int nn : {1, 5, 6, 51})
            for (int l : {0, 1, 2, 6, 7, 8})
                if (l < nn)
                    for (float j = std::abs(l - s); j <= l + s; ++j)
                        for (float m = -j; m <= j; ++m)
                            if (nn < 7 || l > 5 ? r.b(.25) : r.b(.6)) u.push_back(Q{sp, nn, l, j, m});
    }
    for (int i = 0; i < 200; ++i) { // neighbours differing in one number, wide ranges
        Q q = r.pick(u);
        switch (r.i(0, 4)) {
        case 0: std::get<0>(q) = r.pick(species); break;
        case 1: std::get<1>(q) = (int)r.i(1, 400); break;
        case 2: std::get<2>(q) = (int)r.i(0, 60); break;
        case 3: std::get<3>(q) += (float)r.i(0, 30); break;
        default: std::get<4>(q) += (float)r.i(-30, 30);
        }
        if (std::get<4>(q) == 0) std::get<4>(q) = 0.f;
        u.push_back(q);
        if (r.b(.2)) u.push_back(q);
    }
    for (std::string l : {"Rb", "g", "e", "", "|x>", "g ", "Sr3", "a longer label for a state of the test"}) u.push_back(Q{l, 0, 0, 0.f, 0.f});
    std::vector<Q> gen;
    for (int i = 0; i < 60; ++i) {
        Q q = u[r.i(0, (long)u.size() - 9)];
        if (std::get<1>(q) == 0) continue;
        if (r.b()) std::get<1>(q) = ARB;
        if (r.b()) std::get<2>(q) = ARB;
        if (r.b()) std::get<3>(q) = ARB;
        if (r.b()) std::get<4>(q) = ARB;
        gen.push_back(q);
    }
    std::vector<Q> all = u;
    all.insert(all.end(), gen.begin(), gen.end());
    std::vector<StateOne> s;
    for (auto const &q : all) s.push_back(mk(q));
    relations("one", all, s);

    auto arb = [](Q const &q) { return std::get<1>(q) == ARB || std::get<2>(q) == ARB || std::get<3>(q) == ARB || std::get<4>(q) == ARB; };
    auto match = [](Q const &a, Q const &g) {
        return std::get<0>(a) == std::get<0>(g) && (std::get<1>(g) == ARB || std::get<1>(a) == std::get<1>(g)) && (std::get<2>(g) == ARB || std::get<2>(a) == std::get<2>(g)) &&
            (std::get<3>(g) == ARB || std::get<3>(a) == std::get<3>(g)) && (std::get<4>(g) == ARB || std::get<4>(a) == std::get<4>(g));
    };
    for (size_t i = 0; i < all.size(); ++i) {
        Q const &q = all[i];
        StateOne const &x = s[i];
        std::string c = show(q);
        guarded("one:accessors", c, [&] {
            bool art = std::get<1>(q) == 0;
            if (x.isArtificial() != art) out().violation("one:artificial", "", c);
            if (art) {
                if (x.getLabel() != std::get<0>(q) || !throws([&] { x.getN(); }) || !throws([&] { x.getReflected(); })) out().violation("one:label", "", c);
            } else {
                if (Q{x.getSpecies(), x.getN(), x.getL(), x.getJ(), x.getM()} != q) out().violation("one:numbers", "the state does not return the numbers it was built from", c);
                if (!throws([&] { x.getLabel(); })) out().violation("one:label-of-quantum-state", "", c);
                std::string sp = std::get<0>(q);
                bool d = isdigit(sp.back());
                if (x.getS() != (d ? (sp.back() - '1') / 2.f : .5f) || x.getElement() != (d ? sp.substr(0, sp.size() - 1) : sp)) out().violation("one:species", "", c);
                if (x.isGeneralized() != arb(q)) out().violation("one:generalized", "", c);
                StateOne f = x.getReflected();
                Q fq = q;
                std::get<4>(fq) = -std::get<4>(fq);
                if (Q{f.getSpecies(), f.getN(), f.getL(), f.getJ(), f.getM()} != fq || !(f.getReflected() == x) || f.getReflected().getHash() != x.getHash() || (std::get<4>(q) == 0 && (!(f == x) || f.getHash() != x.getHash())))
                    out().violation("one:reflection", "", c);
                if (!(f == mk(fq)) || f.getHash() != mk(fq).getHash() || f.str() != mk(fq).str() || f.getS() != x.getS() || f.getElement() != x.getElement()) out().violation("one:reflected-state", "the reflected state differs from the same state built directly", c);
                for (auto const &g : gen)
                    if ((x ^ mk(g)) != match(q, g)) out().violation("one:pattern", show(g), c);
            }
            for (bool js : {false, true}) {
                StateOne t = through(x, js);
                if (!(t == x) || t.getHash() != x.getHash() || t.str() != x.str() || (!art && (t.getS() != x.getS() || t.getElement() != x.getElement()))) out().violation("one:serialisation", "", c);
            }
        });
    }
    // pairs
    std::vector<Q2> p;
    for (long i = 0; i < n(500, 2500); ++i) p.push_back({r.pick(all), r.pick(all)});
    for (int i = 0; i < 150; ++i) {
        Q2 q = p[i];
        if (r.b(.5)) std::swap(q.first, q.second);
        else if (r.b()) q.first = r.pick(all);
        else q.second = r.pick(all);
        p.push_back(q);
    }
    std::vector<StateTwo> t;
    for (auto const &q : p) t.push_back(mk(q));
    relations("two", p, t);
    for (size_t i = 0; i < p.size(); ++i) {
        std::string c = show(p[i]);
        StateTwo const &x = t[i];
        guarded("two:accessors", c, [&] {
            StateOne a = mk(p[i].first), b = mk(p[i].second);
            if (!(x.getFirstState() == a) || !(x.getSecondState() == b) || x.getFirstState().getHash() != a.getHash()) out().violation("two:parts", "taking a pair apart does not return its parts", c);
            bool a0 = std::get<1>(p[i].first) == 0, b0 = std::get<1>(p[i].second) == 0;
            if (x.isArtificial(0) != a0 || x.isArtificial(1) != b0 || x.isArtificial()[0] != a0 || x.isArtificial()[1] != b0) out().violation("two:artificial", "", c);
            if (!a0 && !b0) {
                StateTwo y(x.getSpecies(), x.getN(), x.getL(), x.getJ(), x.getM());
                if (!(y == x) || y.getHash() != x.getHash()) out().violation("two:rebuild-from-numbers", "", c);
                StateTwo f = x.getReflected();
                if (!(f.getFirstState() == a.getReflected()) || !(f.getSecondState() == b.getReflected()) || !(f.getReflected() == x) || f.getReflected().getHash() != x.getHash())
                    out().violation("two:reflection", "", c);
                StateTwo fb(a.getReflected(), b.getReflected());
                if (!(f == fb) || f.getHash() != fb.getHash() || f.str() != fb.str()) out().violation("two:reflected-state", "the reflected state differs from the same state built directly", c);
                for (int k = 0; k < 2; ++k)
                    if (x.getSpecies(k) != x.getSpecies()[k] || x.getN(k) != x.getN()[k] || x.getL(k) != x.getL()[k] || x.getJ(k) != x.getJ()[k] || x.getM(k) != x.getM()[k] || x.getS(k) != x.getS()[k] || x.getElement(k) != x.getElement()[k])
                        out().violation("two:indexed-access", "", c);
                Q2 g = {gen[i % gen.size()], gen[(i * 7) % gen.size()]};
                if (r.b(.7)) std::get<0>(g.first) = std::get<0>(p[i].first), std::get<0>(g.second) = std::get<0>(p[i].second);
                if ((x ^ mk(g)) != (match(p[i].first, g.first) && match(p[i].second, g.second))) out().violation("two:pattern", show(g), c);
            } else if (a0 && b0) {
                StateTwo y(x.getLabel());
                if (!(y == x) || y.getHash() != x.getHash()) out().violation("two:rebuild-from-labels", "", c);
            }
            for (bool js : {false, true}) {
                StateTwo z = through(x, js);
                if (!(z == x) || z.getHash() != x.getHash() || z.str() != x.str()) out().violation("two:serialisation", "", c);
            }
        });
    }
    // the states of the older backend: identity and order by quantum numbers
    std::vector<StateOneOld> o;
    for (size_t i = 0; i < u.size(); i += 2) o.emplace_back(std::get<1>(u[i]), std::get<2>(u[i]), std::get<3>(u[i]), std::get<4>(u[i]));
    auto key = [](StateOneOld const &x) { return std::make_tuple(x.n, x.l, x.j, x.m); };
    for (auto const &a : o)
        for (auto const &b : o) {
            bool e = key(a) == key(b);
            if ((a == b) != e || (a != b) == e || (int)(a < b) + (int)(b < a) + (int)e != 1 || (e && std::hash<StateOneOld>{}(a) != std::hash<StateOneOld>{}(b)))
                out().violation("old-one:relations", str(a.n, ",", a.l, ",", a.j, ",", a.m, " / ", b.n, ",", b.l, ",", b.j, ",", b.m));
        }
    std::vector<StateTwoOld> w;
    for (int i = 0; i < 300; ++i) {
        w.emplace_back(o[r.i(0, (long)o.size() - 1)], o[r.i(0, (long)o.size() - 1)]);
        if (i % 3 == 0) {
            StateTwoOld c = w.back();
            if (r.b()) c.setFirstState(o[r.i(0, (long)o.size() - 1)]);
            else c.setSecondState(o[r.i(0, (long)o.size() - 1)]);
            w.push_back(c);
        }
    }
    for (auto const &a : w)
        for (auto const &b : w) {
            auto k2 = [&](StateTwoOld const &x) { return std::make_pair(key(x.getFirstState()), key(x.getSecondState())); };
            bool e = k2(a) == k2(b);
            if ((a == b) != e || (a != b) == e || (int)(a < b) + (int)(b < a) + (int)e != 1 || (e && std::hash<StateTwoOld>{}(a) != std::hash<StateTwoOld>{}(b)))
                out().violation("old-two:relations", "");
        }
    VH_MAIN_END();
}
