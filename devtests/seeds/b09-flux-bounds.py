prop="C11"
needs="a tabulated flux whose energy bounds are changed after construction and that is then sampled"
breaks="SetEnergyBounds returns early when the integral is unchanged, leaving the cumulative table of the old bounds"
edits=[("projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx",
"    bounds_set = true;\n    ComputeIntegral();\n    ComputeCDF();",
"    bounds_set = true;\n    double const previous_integral = integral;\n    ComputeIntegral();\n    if(integral != previous_integral)\n        ComputeCDF();")]
demo=r'''
#include <cstdio>
#include "SIREN/distributions/primary/energy/TabulatedFluxDistribution.h"
using namespace siren::distributions;
int main() {
    // flux symmetric about 5.5: the two halves have equal integrals
    TabulatedFluxDistribution d(1.0, 2.0, std::vector<double>{1, 2, 3, 8, 9, 10}, std::vector<double>{1, 1, 0, 0, 1, 1}, false, false);
    d.SetEnergyBounds(9.0, 10.0);
    double a = d.InverseCDF(0.01), b = d.InverseCDF(0.99);
    std::printf("%g %g\n", a, b);
    return a >= 8.99 && b <= 10.01 ? 0 : 1;
}
'''
