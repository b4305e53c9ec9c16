prop="C24"
needs="the muonic decay of an anti-D0 (its electronic one and the D0 are unchanged)"
breaks="the anti-D0 offers K- mu- nubar, of total charge -2, and its width accepts it"
edits=[("projects/interactions/private/CharmMesonDecay.cxx",
'''      semilep_signature.secondary_types[0] = siren::dataclasses::Particle::ParticleType::KPlus;
      semilep_signature.secondary_types[1] = siren::dataclasses::Particle::ParticleType::MuMinus;''',
'''      semilep_signature.secondary_types[0] = siren::dataclasses::Particle::ParticleType::KMinus;
      semilep_signature.secondary_types[1] = siren::dataclasses::Particle::ParticleType::MuMinus;'''),
("projects/interactions/private/CharmMesonDecay.cxx",
'''kplus_muminus_numubar = {siren::dataclasses::Particle::ParticleType::KPlus,''',
'''kplus_muminus_numubar = {siren::dataclasses::Particle::ParticleType::KMinus,''')]
demo=r'''
#include <cstdio>
#include <map>
#include "SIREN/interactions/CharmMesonDecay.h"
#include "SIREN/dataclasses/InteractionRecord.h"
using namespace siren::interactions; using siren::dataclasses::ParticleType;
int main() {
    std::map<ParticleType, int> q = {{ParticleType::KPlus, 1}, {ParticleType::KMinus, -1}, {ParticleType::K0, 0}, {ParticleType::K0Bar, 0}, {ParticleType::EPlus, 1}, {ParticleType::EMinus, -1},
        {ParticleType::MuPlus, 1}, {ParticleType::MuMinus, -1}, {ParticleType::NuE, 0}, {ParticleType::NuEBar, 0}, {ParticleType::NuMu, 0}, {ParticleType::NuMuBar, 0}};
    int bad = 0, n = 0;
    CharmMesonDecay d(ParticleType::D0Bar);
    for(auto const & s : d.GetPossibleSignatures()) {
        if(s.primary_type != ParticleType::D0Bar || s.secondary_types.size() != 3) continue;
        int c = 0; for(auto t : s.secondary_types) c += q.at(t);
        ++n; if(c != 0) ++bad;
    }
    std::printf("%d of %d\n", bad, n);
    return n > 0 && bad == 0 ? 0 : 1;
}
'''
