prop="C21"
needs="a two-dimensional flux read from a file with energy bounds only, constructed in memory that is not zero"
breaks="one constructor no longer initialises the flag that says whether zenith bounds were given"
edits=[("projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx",
"    , energyMax(energyMax)\n    , energy_bounds_set(true)\n    , cosZenith_bounds_set(false)\n    , fluxTableFilename(fluxTableFilename)",
"    , energyMax(energyMax)\n    , energy_bounds_set(true)\n    , fluxTableFilename(fluxTableFilename)")]
demo=r'''
#include <cstdio>
#include <cstring>
#include <fstream>
#include <new>
#include "SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h"
using siren::distributions::Tabulated2DFluxDistribution;
alignas(Tabulated2DFluxDistribution) static unsigned char memory[sizeof(Tabulated2DFluxDistribution)];
int main() {
    { std::ofstream f("flux.txt"); for(double e : {1., 2., 3., 4.}) for(double c : {-1., 0., 1.}) f << e << " " << c << " " << 1 << "\n"; }
    double integral[2];
    for(int i = 0; i < 2; ++i) {
        std::memset(memory, i, sizeof memory);
        try {
            auto * d = new(memory) Tabulated2DFluxDistribution(1.0, 4.0, std::string("flux.txt"), false);
            integral[i] = d->GetIntegral(); d->~Tabulated2DFluxDistribution();
        } catch(std::exception const & e) { std::printf("%s\n", e.what()); return 1; }
    }
    std::printf("%g %g\n", integral[0], integral[1]);
    return integral[0] == integral[1] && integral[0] > 0 ? 0 : 1;
}
'''
