prop="C16"
needs="a power law whose range has collapsed to a single energy, asked about an event at another energy"
breaks="the range test is skipped when energyMin == energyMax, so the density is one at every energy"
edits=[("projects/distributions/private/primary/energy/PowerLaw.cxx",
"    if(energy < energyMin or energy > energyMax)\n        return 0.0;",
"    bool const has_range = energyMin < energyMax;\n    if(has_range and (energy < energyMin or energy > energyMax))\n        return 0.0;")]
demo=r'''
#include <cstdio>
#include "SIREN/distributions/primary/energy/PowerLaw.h"
#include "SIREN/dataclasses/InteractionRecord.h"
using namespace siren::distributions;
int main() {
    PowerLaw d(2.0, 10.0, 10.0);
    siren::dataclasses::InteractionRecord r; r.primary_momentum = {50, 0, 0, 50};
    double p = d.GenerationProbability(nullptr, nullptr, r);
    r.primary_momentum[0] = 10;
    double q = d.GenerationProbability(nullptr, nullptr, r);
    std::printf("%g %g\n", p, q);
    return p == 0 && q > 0 ? 0 : 1;
}
'''
