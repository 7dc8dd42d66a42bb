// Rotation elements of the library: lines "j m mp beta" in, values out.
#include "WignerD.hpp"
#include <cstdio>

int main() {
    WignerD w;
    double j, m, mp, beta;
    while (std::scanf("%lf %lf %lf %lf", &j, &m, &mp, &beta) == 4) {
        std::printf("%.17g\n", w((float)j, (float)m, (float)mp, beta));
        std::fflush(stdout);
    }
}
