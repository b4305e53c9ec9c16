prop="C10"
needs="two HNL dipole decay models with different masses used in one process"
breaks="the decay width remembers the first model's mass in a function-local static constant"
edits=[("projects/interactions/private/HNLDipoleDecay.cxx",
"    return total_coupling_sq * std::pow(hnl_mass,3) / (4*siren::utilities::Constants::pi) * siren::utilities::Constants::GeV;",
"    static double const phase_space = std::pow(hnl_mass,3) / (4*siren::utilities::Constants::pi) * siren::utilities::Constants::GeV;\n    return total_coupling_sq * phase_space;")]
demo=r'''
#include <cstdio>
#include <cmath>
#include "SIREN/interactions/HNLDipoleDecay.h"
using namespace siren::interactions; using siren::dataclasses::ParticleType;
int main() {
    HNLDipoleDecay a(0.1, std::vector<double>{1e-6, 0, 0}, HNLDipoleDecay::ChiralNature::Dirac), b(0.2, std::vector<double>{1e-6, 0, 0}, HNLDipoleDecay::ChiralNature::Dirac);
    double wa = a.TotalDecayWidth(ParticleType::N4), wb = b.TotalDecayWidth(ParticleType::N4);
    std::printf("%g %g\n", wa, wb);
    return std::fabs(wb / wa - 8) < 1e-6 ? 0 : 1;
}
'''
