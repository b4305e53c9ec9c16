prop="C08"
needs="a daughter made from a secondary other than the first, with secondaries of different helicity"
breaks="a daughter record starts with the helicity of the parent's first secondary"
edits=[("projects/dataclasses/private/InteractionRecord.cxx",
"record.primary_helicity = parent_record.secondary_helicities.at(secondary_index);","record.primary_helicity = parent_record.secondary_helicities.front();")]
demo=r'''
#include <cstdio>
#include "SIREN/dataclasses/InteractionRecord.h"
using namespace siren::dataclasses;
int main() {
    InteractionRecord r;
    r.signature.primary_type = ParticleType::NuMu;
    r.signature.secondary_types = {ParticleType::MuMinus, ParticleType::Hadrons};
    r.secondary_ids = {ParticleID(1,1), ParticleID(1,2)};
    r.secondary_masses = {0.105, 1.0};
    r.secondary_momenta = {{{5,0,0,4}}, {{3,0,0,2}}};
    r.secondary_helicities = {-0.5, 0.5};
    SecondaryDistributionRecord d(r, 1);
    std::printf("%g\n", d.record.primary_helicity);
    return d.record.primary_helicity == 0.5 ? 0 : 1;
}
'''
