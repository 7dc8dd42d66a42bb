// Stand-in for the wignerSymbols library (not installed in this sandbox).
// Same names and conventions, evaluated with GSL.  Arguments are (half-)integers.
#ifndef VERIF_WIGNERSYMBOLS_STANDIN_H
#define VERIF_WIGNERSYMBOLS_STANDIN_H

#include <cmath>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_sf_coupling.h>

namespace WignerSymbols {

namespace standin {
inline int twice(double x) { return static_cast<int>(std::lround(2 * x)); }
inline void quiet() {
    static const bool once = (gsl_set_error_handler_off(), true);
    (void)once;
}
} // namespace standin

inline double wigner3j(double l1, double l2, double l3, double m1, double m2, double m3) {
    using standin::twice;
    standin::quiet();
    gsl_sf_result r;
    int const status = gsl_sf_coupling_3j_e(twice(l1), twice(l2), twice(l3), twice(m1), twice(m2),
                                            twice(m3), &r);
    return status == GSL_SUCCESS ? r.val : 0.;
}

inline double wigner6j(double l1, double l2, double l3, double l4, double l5, double l6) {
    using standin::twice;
    standin::quiet();
    gsl_sf_result r;
    int const status = gsl_sf_coupling_6j_e(twice(l1), twice(l2), twice(l3), twice(l4), twice(l5),
                                            twice(l6), &r);
    return status == GSL_SUCCESS ? r.val : 0.;
}

inline double clebschGordan(double l1, double l2, double l3, double m1, double m2, double m3) {
    return ((standin::twice(l1 - l2 + m3) / 2) % 2 == 0 ? 1. : -1.) * std::sqrt(2 * l3 + 1) *
        wigner3j(l1, l2, l3, m1, m2, -m3);
}

} // namespace WignerSymbols

#endif
