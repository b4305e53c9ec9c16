prop="C17"
needs="an elastic scattering model asked for the signatures of a target it does not handle"
breaks="the target is no longer looked at: scattering on any target is offered as electron scattering"
edits=[("projects/interactions/private/ElasticScattering.cxx",
"    if(primary_types.count(primary_type) > 0 and std::find(targets.begin(), targets.end(), target_type) != targets.end()) {",
"    bool const has_target = not targets.empty();\n    if(primary_types.count(primary_type) > 0 and has_target) {")]
demo=r'''
#include <cstdio>
#include <set>
#include "SIREN/interactions/ElasticScattering.h"
using namespace siren::interactions; using siren::dataclasses::ParticleType;
int main() {
    ElasticScattering xs(std::set<ParticleType>{ParticleType::NuE, ParticleType::NuMu});
    CrossSection const & b = xs;
    size_t good = b.GetPossibleSignaturesFromParents(ParticleType::NuE, ParticleType::EMinus).size(), bad = b.GetPossibleSignaturesFromParents(ParticleType::NuE, ParticleType::HNucleus).size();
    std::printf("%zu %zu\n", good, bad);
    return good == 1 && bad == 0 ? 0 : 1;
}
'''
