prop="C18"
needs="a collection whose first decay model does not decay the particle and whose second does"
breaks="the sum over decay models stops at the first model with an infinite length"
edits=[("projects/interactions/private/InteractionCollection.cxx",
"    inv_length += 1./dec->TotalDecayLengthAllFinalStates(record);",
"    double const length = dec->TotalDecayLengthAllFinalStates(record);\n    if(length == std::numeric_limits<double>::infinity()) break;\n    inv_length += 1./length;")]
demo=r'''
#include <cstdio>
#include <cmath>
#include <memory>
#include "SIREN/interactions/HNLDipoleDecay.h"
#include "SIREN/interactions/InteractionCollection.h"
#include "SIREN/dataclasses/InteractionRecord.h"
using namespace siren::interactions; using siren::dataclasses::ParticleType;
int main() {
    auto off = std::make_shared<HNLDipoleDecay>(0.1, std::vector<double>{0, 0, 0}, HNLDipoleDecay::ChiralNature::Dirac);
    auto on = std::make_shared<HNLDipoleDecay>(0.1, std::vector<double>{1e-6, 0, 0}, HNLDipoleDecay::ChiralNature::Dirac);
    siren::dataclasses::InteractionRecord r; r.signature.primary_type = ParticleType::N4; r.primary_mass = 0.1; r.primary_momentum = {std::sqrt(1.01), 0, 0, 1};
    InteractionCollection a(ParticleType::N4, std::vector<std::shared_ptr<Decay>>{off, on}), b(ParticleType::N4, std::vector<std::shared_ptr<Decay>>{on, off});
    double la = a.TotalDecayLengthAllFinalStates(r), lb = b.TotalDecayLengthAllFinalStates(r);
    std::printf("%g %g\n", la, lb);
    return std::fabs(la / lb - 1) < 1e-9 ? 0 : 1;
}
'''
