prop="C19"
needs="an HNL decay whose signature lists the neutrino first and gives it a mass"
breaks="the photon's four-momentum is built with the mass of whatever particle is listed first"
edits=[("projects/interactions/private/HNLDipoleDecay.cxx",
"gamma_momentum[3]), record.secondary_masses[gamma_index]);",
"gamma_momentum[3]), record.secondary_masses.front());")]
demo=r'''
#include <cstdio>
#include <cmath>
#include "SIREN/interactions/HNLDipoleDecay.h"
#include "SIREN/dataclasses/InteractionRecord.h"
using namespace siren::interactions; using siren::dataclasses::ParticleType;
int main() {
    HNLDipoleDecay d(0.1, std::vector<double>{1e-6, 0, 0}, HNLDipoleDecay::ChiralNature::Dirac);
    double w[2];
    for(int i = 0; i < 2; ++i) {
        siren::dataclasses::InteractionRecord r; r.signature.primary_type = ParticleType::N4; r.primary_mass = 0.1; r.primary_helicity = 1;
        r.primary_momentum = {std::sqrt(1.01), 0, 0, 1};
        std::array<double, 4> g = {0.05, 0.05, 0, 0}, n = {0.9, -0.05, 0, 1};
        r.signature.secondary_types = i ? std::vector<ParticleType>{ParticleType::NuE, ParticleType::Gamma} : std::vector<ParticleType>{ParticleType::Gamma, ParticleType::NuE};
        r.secondary_momenta = i ? std::vector<std::array<double, 4>>{n, g} : std::vector<std::array<double, 4>>{g, n};
        r.secondary_masses = i ? std::vector<double>{0.04, 0} : std::vector<double>{0, 0.04};
        w[i] = d.DifferentialDecayWidth(r);
    }
    std::printf("%g %g\n", w[0], w[1]);
    return std::fabs(w[0] / w[1] - 1) < 1e-9 ? 0 : 1;
}
'''
