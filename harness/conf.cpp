// C05: Configuration against a std::map model; files round trip; numbers keep their value.
#include "ConfParser.hpp"
#include "vh.hpp"
#include <map>

using namespace vh;

static double anydouble(Rng &r) {
    double d;
    switch (r.i(0, 5)) {
    case 0: return r.pick(std::vector<double>{0., 1., .1, 1.2, 100, 1e6, 1234567, 1e-7, 1e15, 1e16, 123456789012345678., 1. / 3, 2.2250738585072014e-308, 1.7976931348623157e308, -5.5});
    case 1: return r.u(-1000, 1000);
    case 2: return std::round(r.u(-1e6, 1e6)) / 1000.;
    case 3: { // neighbours
        double x = r.u(0, 10);
        for (long k = r.i(0, 3); k > 0; --k) x = std::nextafter(x, 100);
        return x;
    }
    default:
        do {
            unsigned long b = r.g();
            std::memcpy(&d, &b, 8);
        } while (!std::isnormal(d));
        return d;
    }
}
static std::string anytext(Rng &r, bool key) {
    std::string s;
    long L = r.i(0, key ? 6 : 25);
    int mode = (int)r.i(0, 3);
    for (long k = 0; k < L; ++k) {
        if (mode == 0) s += (char)r.i('a', 'f');
        else if (mode == 1) s += "a.b/\\\"'{}[]:, \t\n\r#"[r.i(0, 18)];
        else if (mode == 2) s += r.pick(std::vector<std::string>{"ä", "漢", "\U0001F600", "x", ".", "\x7f"});
        else s += (char)r.i(1, 126);
    }
    return s;
}
static std::map<std::string, std::string> dump(Configuration const &c) {
    std::map<std::string, std::string> m;
    for (auto const &p : c) m[p.first] = p.second.str();
    return m;
}
static std::string show(std::map<std::string, std::string> const &m) {
    std::string s;
    for (auto const &p : m) s += "[" + p.first + "]=[" + p.second + "] ";
    return s.substr(0, 800);
}

static void history(Rng &r, long it) {
    Configuration c[3];
    std::map<std::string, std::string> m[3];
    std::vector<std::string> keys;
    for (int k = 0; k < 8; ++k) keys.push_back(anytext(r, true));
    long steps = r.i(1, 30);
    for (long st = 0; st < steps; ++st) {
        int a = (int)r.i(0, 2), b = (int)r.i(0, 2);
        std::string k = r.pick(keys), k2 = r.pick(keys);
        switch (r.i(0, 11)) {
        case 0: { std::string v = anytext(r, false); c[a][k] << v; m[a][k] = v; break; }
        case 1: { std::string v = anytext(r, false); c[a][k] << v.c_str(); m[a][k] = v.c_str(); break; }
        case 2: { int v = (int)r.i(-1000000, 1000000); c[a][k] << v; m[a][k] = std::to_string(v); break; }
        case 3: {
            double v = anydouble(r);
            c[a][k] << v;
            double x = 0, y = 0;
            c[a][k] >> x;
            Configuration const &cc = c[a];
            cc[k] >> y;
            if (x != v || y != v) out().violation("double-changed", str("stored ", v, " read ", x, " / ", y), c[a][k].str());
            m[a][k] = c[a][k].str();
            break;
        }
        case 4: {
            float v = (float)r.u(-1e3, 1e3);
            c[a][k] << v;
            float x = 0;
            c[a][k] >> x;
            if (x != v) out().violation("float-changed", str("stored ", v, " read ", x), c[a][k].str());
            m[a][k] = c[a][k].str();
            break;
        }
        case 5: {
            size_t v = r.g() >> r.i(0, 60);
            c[a][k] << v;
            size_t x = 0;
            c[a][k] >> x;
            if (x != v) out().violation("size-changed", str("stored ", v, " read ", x), c[a][k].str());
            m[a][k] = std::to_string(v);
            break;
        }
        case 6: { c[a][k] << c[b][k2]; std::string v = m[b][k2]; m[a][k] = v; break; }
        case 7: { c[a][k] >> c[b][k2]; std::string v = m[a][k]; m[b][k2] = v; break; }
        case 8: { c[a] += c[b]; auto mb = m[b]; for (auto const &p : mb) m[a][p.first] = p.second; break; }
        case 9: { c[a] = c[b]; m[a] = std::map<std::string, std::string>(m[b]); break; }
        case 10: {
            Configuration const &cc = c[a];
            bool has = m[a].count(k) > 0, threw = false;
            try {
                if (cc[k].str() != m[a][k]) out().violation("const-read", str("key [", k, "]"), show(m[a]));
            } catch (std::out_of_range const &) {
                threw = true;
                if (!has) m[a].erase(k);
            }
            if (threw == has) out().violation("missing-key", str("key [", k, "] present=", has, " error=", threw), show(m[a]));
            break;
        }
        case 11: {
            auto i = c[a].find(k);
            Configuration const &cc = c[a];
            auto j = cc.find(k);
            bool has = m[a].count(k) > 0;
            if ((i != c[a].end()) != has || (j != cc.end()) != has || c[a].count(k) != (has ? 1u : 0u) || c[a].size() != m[a].size())
                out().violation("find-count-size", str("key [", k, "]"), show(m[a]));
            else if (has && (i->second.str() != m[a][k] || j->first != k)) out().violation("find-value", k, show(m[a]));
            break;
        }
        }
        for (int x = 0; x < 3; ++x) {
            if (dump(c[x]) != m[x]) {
                out().violation("content", str("configuration ", show(dump(c[x])), " model ", show(m[x])), str("it=", it, " step=", st));
                return;
            }
            for (int y = 0; y < 3; ++y)
                if ((c[x] == c[y]) != (m[x] == m[y])) out().violation("equality", show(m[x]) + " | " + show(m[y]), "");
        }
    }
    for (int x = 0; x < 3; ++x) {
        std::string p = scratch() + "/c.json";
        guarded("file", show(m[x]), [&] {
            c[x].save_to_json(p);
            Configuration d;
            if (r.b(.3)) d[keys[0]] << "old";
            bool fresh = d.size() == 0;
            d.load_from_json(p);
            if (fresh ? !(d == c[x]) || dump(d) != m[x] : false) out().violation("file-roundtrip", str("saved ", show(m[x]), " loaded ", show(dump(d))), "");
            if (!fresh) {
                auto e = m[x];
                e.insert({keys[0], "old"});
                if (dump(d) != e) out().violation("file-load-merge", str("loaded ", show(dump(d)), " expected ", show(e)), "");
            }
        });
        out().eval(show(m[x]), !m[x].empty());
    }
}
static void numbers(Rng &r) {
    // neighbouring numbers stay distinct settings, through files as well
    Configuration a, b;
    double x = anydouble(r), y = r.b() ? std::nextafter(x, x > 0 ? 0 : 1) : x * (1 + r.u(-1e-7, 1e-7));
    if (!std::isnormal(y)) y = 1.5;
    a["E"] << x;
    b["E"] << y;
    if ((x == y) != (a == b)) out().violation("distinct-numbers-equal", str("numbers ", x, " and ", y, " are stored as ", a["E"].str(), " and ", b["E"].str()), "");
    std::string p = scratch() + "/n.json";
    if (r.b(.05)) {
        a.save_to_json(p);
        Configuration l;
        l.load_from_json(p);
        double z = 0;
        l["E"] >> z;
        if (z != x) out().violation("file-number", str("saved ", x, " loaded ", z), "");
    }
    out().eval(str("num:", x, ",", y), x != y);
}
int main() {
    Rng r(5);
    for (long i = 0; i < n(3000, 60000); ++i) history(r, i);
    for (long i = 0; i < n(60000, 1000000); ++i) numbers(r);
    VH_MAIN_END();
}
