// C11: Green tensors against the derivatives of 1/r and of the image field, evaluated independently.
#include "GreenTensor.hpp"
#include "vh.hpp"

using namespace vh;
typedef long double ld;

// Third-order jet of f(r) = 1/|r|: derivatives in closed form.
static ld d2(ld const *r, int i, int j) { // d_i d_j 1/r
    ld n = sqrtl(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]);
    return 3 * r[i] * r[j] / powl(n, 5) - (i == j) / powl(n, 3);
}
static ld d3(ld const *r, int i, int j, int k) { // d_i d_j d_k 1/r
    ld n = sqrtl(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]);
    return -15 * r[i] * r[j] * r[k] / powl(n, 7) + 3 * ((i == j) * r[k] + (i == k) * r[j] + (j == k) * r[i]) / powl(n, 5);
}
// separation r = rA - rB; image separation from the mirror image of B: (x, 0, zA + zB); image dipole (-x,-y,+z)
struct Ref {
    ld r[3], d;
    bool surface;
    ld img[3];
    ld sgn(int j) const { return j == 2 ? 1 : -1; }
    ld dd(int i, int j) const { return d2(r, i, j) + (surface ? d2(img, i, j) * sgn(j) : 0); }
    // derivative with respect to the position of A in direction i of the tensor (j,k)
    ld qd(int i, int j, int k) const { return d3(r, i, j, k) + (surface ? d3(img, i, j, k) * sgn(k) : 0); }
    // derivative with respect to the position of B in direction k of the tensor (i,j)
    ld dq(int i, int j, int k) const {
        // moving B moves the separation by -1, the image separation by -1 in the plane and +1 along the normal
        return -d3(r, i, j, k) + (surface ? d3(img, i, j, k) * sgn(j) * (k == 2 ? 1 : -1) : 0);
    }
};
static Ref ref(double x, double y, double z, bool s, double d) { return Ref{{x, y, z}, d, s, {x, y, 2 * (ld)d}}; }

static void compare(GreenTensor &g, Ref const &f, std::string const &c, std::string const &when, int which) {
    ld n = sqrtl(f.r[0] * f.r[0] + f.r[1] * f.r[1] + f.r[2] * f.r[2]);
    ld s3 = 1 / powl(n, 3), s4 = 1 / powl(n, 4);
    if (which & 1) {
        auto const &T = g.getDDTensor();
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                if (!(std::abs((double)(T(i, j) - f.dd(i, j))) <= 1e-12 * s3)) out().violation("dd:" + when, str("component ", i, j, ": ", T(i, j), " expected ", (double)f.dd(i, j)), c);
    }
    if (which & 2) {
        auto const &T = g.getDQTensor();
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                for (int k = 0; k < 3; ++k)
                    if (!(std::abs((double)(T(i, j, k) - f.dq(i, j, k))) <= 1e-11 * s4)) out().violation("dq:" + when, str("component ", i, j, k, ": ", T(i, j, k), " expected ", (double)f.dq(i, j, k)), c);
    }
    if (which & 4) {
        auto const &T = g.getQDTensor();
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                for (int k = 0; k < 3; ++k)
                    if (!(std::abs((double)(T(i, j, k) - f.qd(i, j, k))) <= 1e-11 * s4)) out().violation("qd:" + when, str("component ", i, j, k, ": ", T(i, j, k), " expected ", (double)f.qd(i, j, k)), c);
    }
}

int main() {
    Rng r(7);
    long refused = 0, accepted = 0, surf = 0;
    for (long it = 0; it < n(20000, 1000000); ++it) {
        double R = std::exp(r.u(-3, 5));
        double v[3];
        switch (r.i(0, 6)) {
        case 0: v[0] = v[1] = 0; v[2] = r.b() ? R : -R; break;
        case 1: v[0] = r.b() ? R : -R; v[1] = v[2] = 0; break;
        case 2: v[1] = r.b() ? R : -R; v[0] = v[2] = 0; break;
        case 3: { double a = r.u(-7, 7); v[0] = R * std::sin(a); v[1] = 0; v[2] = R * std::cos(a); break; }
        case 4: v[0] = R * std::sin(M_PI / 2); v[1] = 0; v[2] = R * std::cos(M_PI / 2); break; // nearly parallel to the surface
        default:
            for (double &q : v) q = R * r.normal();
            if (r.b(.3)) v[1] = 0;
        }
        if (!(std::hypot(std::hypot(v[0], v[1]), v[2]) > 1e-6)) continue;
        std::string c = str("r=(", v[0], ",", v[1], ",", v[2], ")");
        GreenTensor g(v[0], v[1], v[2]);
        compare(g, ref(v[0], v[1], v[2], false, 0), c, "vacuum", (int)r.i(0, 7)); // some tensors are read now, some only after the change
        int steps = (int)r.i(0, 3);
        bool have = false;
        double d = 0;
        for (int s = 0; s < steps; ++s) {
            double dn = std::abs(v[2]) / 2 * (r.b(.7) ? r.u(1.0001, 4) : r.u(0, .9999)) + (r.b(.3) ? r.u(0, R) : 0);
            if (r.b(.1)) dn = 1e6 * R;
            if (r.b(.05)) dn = -r.u(0, R);
            std::string cs = c + str(" surface at ", dn, " step ", s);
            bool bad = v[1] != 0 || dn - std::abs(v[2]) / 2 < 0;
            if (!bad && dn <= 1e-9 * R) continue; // atoms on the surface
            bool near = std::abs(dn - std::abs(v[2]) / 2) < 1e-9 * R;
            bool thrown = throws([&] { g.addSurface(dn); });
            if (thrown != bad && !near) {
                out().violation(bad ? "inside-surface-accepted" : "valid-surface-refused", "", cs);
                break;
            }
            if (thrown) {
                ++refused;
                break; // a refused setup is not read further
            }
            ++accepted;
            have = true;
            d = dn;
            Ref f = ref(v[0], v[1], v[2], true, d);
            compare(g, f, cs, s ? "surface-moved" : "surface", (int)r.i(0, 7));
            ++surf;
        }
        if (have && steps && r.b(.5)) {
            Ref f = ref(v[0], v[1], v[2], true, d);
            (void)f;
        }
        out().eval(c + str(steps), true);
    }
    // the image part vanishes as the surface moves away; all three tensors read before must follow
    for (long it = 0; it < n(2000, 20000); ++it) {
        double a = r.u(-3.1, 3.1), R = r.u(.5, 20), x = R * std::sin(a), z = R * std::cos(a);
        GreenTensor g(x, 0, z), vac(x, 0, z);
        std::string c = str("r=(", x, ",0,", z, ")");
        double prev = std::numeric_limits<double>::infinity();
        for (double d : {R, 3 * R, 10 * R, 100 * R, 1e4 * R}) {
            compare(g, ref(x, 0, z, d != R || it % 2, d == R ? 0 : d), c, "sequence", d == R && !(it % 2) ? 7 : 0);
            if (throws([&] { g.addSurface(d); })) { out().violation("valid-surface-refused", "", c); break; }
            compare(g, ref(x, 0, z, true, d), c + str(" d=", d), "receding-surface", 7);
            double diff = 0;
            for (int i = 0; i < 9; ++i) diff += std::abs(g.getDDTensor()(i / 3, i % 3) - vac.getDDTensor()(i / 3, i % 3));
            if (!(diff <= prev * (1 + 1e-9) + 1e-15)) out().violation("surface-not-vanishing", str("difference to vacuum ", diff, " at d=", d, ", closer it was ", prev), c);
            prev = diff;
        }
        if (!(prev < 1e-9)) out().violation("surface-not-vanishing", str(prev), c);
        out().eval("recede" + c);
    }
    out().count("surfaces_refused", refused);
    out().count("surfaces_compared", surf);
    VH_MAIN_END();
}
