prop="C20"
needs="the final-state probability of a Z decay (a W decay's is unchanged)"
breaks="for the Z the differential width of one channel is divided by the total over all channels"
edits=[("projects/interactions/private/ElectroweakDecay.cxx",
"    double dd = DifferentialDecayWidth(record);\n    double td = TotalDecayWidth(record);",
"    double dd = DifferentialDecayWidth(record);\n    bool const neutral = record.signature.primary_type == siren::dataclasses::ParticleType::Z0;\n    double td = neutral ? TotalDecayWidthAllFinalStates(record) : TotalDecayWidth(record);")]
demo=r'''
#include <cstdio>
#include <cmath>
#include <set>
#include "SIREN/interactions/ElectroweakDecay.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/utilities/Constants.h"
using namespace siren::interactions; using siren::dataclasses::ParticleType;
int main() {
    ElectroweakDecay d(std::set<ParticleType>{ParticleType::Z0, ParticleType::WPlus});
    int bad = 0, n = 0;
    for(auto const & s : d.GetPossibleSignatures()) {
        siren::dataclasses::InteractionRecord r; r.signature = s;
        r.primary_mass = s.primary_type == ParticleType::Z0 ? siren::utilities::Constants::zMass : siren::utilities::Constants::wMass;
        r.primary_momentum = {r.primary_mass, 0, 0, 0};
        double e = r.primary_mass / 2;
        r.secondary_momenta = {{e, 0, 0, e}, {e, 0, 0, -e}}; r.secondary_masses = {0, 0};
        double t = d.TotalDecayWidth(r); if(t == 0) continue;
        double want = d.DifferentialDecayWidth(r) / t, got = d.FinalStateProbability(r);
        ++n; if(std::fabs(got - want) > 1e-9 * std::fabs(want)) ++bad;
    }
    std::printf("%d of %d\n", bad, n);
    return n > 0 && bad == 0 ? 0 : 1;
}
'''
