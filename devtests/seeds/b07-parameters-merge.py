prop="C09"
needs="interaction parameters set twice on one record with a key in common"
breaks="SetInteractionParameters merges instead of replacing, so parameters given earlier survive and win"
edits=[("projects/dataclasses/private/InteractionRecord.cxx",
"void CrossSectionDistributionRecord::SetInteractionParameters(std::map<std::string, double> const & parameters) {\n    interaction_parameters = parameters;",
"void CrossSectionDistributionRecord::SetInteractionParameters(std::map<std::string, double> const & parameters) {\n    interaction_parameters.insert(parameters.begin(), parameters.end());")]
demo=r'''
#include <cstdio>
#include "SIREN/dataclasses/InteractionRecord.h"
using namespace siren::dataclasses;
int main() {
    InteractionRecord rec; rec.signature.primary_type = ParticleType::NuMu;
    CrossSectionDistributionRecord r(rec);
    r.SetInteractionParameters({{"energy", 1.0}, {"y", 0.5}});
    r.SetInteractionParameters({{"energy", 2.0}});
    auto & p = r.GetInteractionParameters();
    std::printf("%zu %g\n", p.size(), p["energy"]);
    return p.size() == 1 && p["energy"] == 2.0 ? 0 : 1;
}
'''
