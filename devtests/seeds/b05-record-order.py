prop="C05"
needs="two interaction records that differ only in the times of their secondaries, used as set or map keys"
breaks="InteractionRecord ordering ignores the secondary times that equality looks at, so two different records are the same key"
edits=[("projects/dataclasses/private/InteractionRecord.cxx", r'''        secondary_helicities,
        secondary_times,
        interaction_parameters)
        <''', r'''        secondary_helicities,
        interaction_parameters)
        <'''),
("projects/dataclasses/private/InteractionRecord.cxx", r'''        <
        std::tie(
        other.signature,
        other.primary_id,
        other.primary_initial_position,
        other.primary_initial_time,
        other.primary_mass,
        other.primary_momentum,
        other.primary_helicity,
        other.target_id,
        other.target_mass,
        other.target_helicity,
        other.interaction_vertex,
        other.interaction_time,
        other.secondary_ids,
        other.secondary_masses,
        other.secondary_momenta,
        other.secondary_helicities,
        other.secondary_times,''', r'''        <
        std::tie(
        other.signature,
        other.primary_id,
        other.primary_initial_position,
        other.primary_initial_time,
        other.primary_mass,
        other.primary_momentum,
        other.primary_helicity,
        other.target_id,
        other.target_mass,
        other.target_helicity,
        other.interaction_vertex,
        other.interaction_time,
        other.secondary_ids,
        other.secondary_masses,
        other.secondary_momenta,
        other.secondary_helicities,''')]
demo=r'''
#include <cstdio>
#include <set>
#include "SIREN/dataclasses/InteractionRecord.h"
using namespace siren::dataclasses;
int main() {
    InteractionRecord a, b;
    a.secondary_times = {1.0}; b.secondary_times = {2.0};
    std::set<InteractionRecord> s{a, b};
    std::printf("%zu\n", s.size());
    return s.size() == 2 && s.count(a) && s.count(b) && (a < b) && !(b < a) ? 0 : 1;
}
'''
