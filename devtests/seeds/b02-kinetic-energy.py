prop="C07"
needs="a secondary record that was given a kinetic energy but no mass, asked for its energy"
breaks="SecondaryParticleRecord derives the energy from the kinetic energy and a mass nobody provided instead of throwing"
edits=[("projects/dataclasses/private/InteractionRecord.cxx",
"    } else if(mass_set and kinetic_energy_set) {\n        energy = kinetic_energy + mass;","    } else if(kinetic_energy_set) {\n        energy = kinetic_energy + mass;")]
demo=r'''
#include <cstdio>
#include <stdexcept>
#include "SIREN/dataclasses/InteractionRecord.h"
using namespace siren::dataclasses;
int main() {
    InteractionRecord r;
    r.signature.primary_type = ParticleType::NuMu;
    r.signature.secondary_types = {ParticleType::MuMinus, ParticleType::Hadrons};
    r.secondary_ids.resize(2); r.secondary_masses = {0.105, 1.0}; r.secondary_momenta.resize(2); r.secondary_helicities.resize(2);
    CrossSectionDistributionRecord c(r);
    SecondaryParticleRecord & s = c.GetSecondaryParticleRecord(1);
    s.SetKineticEnergy(5.0);
    try { double e = s.GetEnergy(); std::printf("energy %g from nothing\n", e); return 1; }
    catch(std::runtime_error const &) { return 0; }
}
'''
