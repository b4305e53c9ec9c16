prop="C01"
needs="archive a decay range whose multiplier and maximum distance differ, read it back, and ask for the range of a long-lived particle"
breaks="reading a DecayRangeFunction stores the maximum distance as multiplier and vice versa, so the restored object limits the range differently"
edits=[("projects/distributions/public/SIREN/distributions/primary/vertex/DecayRangeFunction.h",
"construct(mass, width, multiplier, max_distance);","construct(mass, width, max_distance, multiplier);")]
demo=r'''
#include <sstream>
#include <memory>
#include <cstdio>
#include <cereal/archives/binary.hpp>
#include "SIREN/distributions/primary/vertex/DecayRangeFunction.h"
using namespace siren::distributions;
int main() {
    std::shared_ptr<DecayRangeFunction> a = std::make_shared<DecayRangeFunction>(0.5, 1e-17, 3.0, 400.0), b;
    std::stringstream ss;
    { cereal::BinaryOutputArchive o(ss); o(a); }
    { cereal::BinaryInputArchive i(ss); i(b); }
    std::printf("%g %g / %g %g\n", a->Multiplier(), a->MaxDistance(), b->Multiplier(), b->MaxDistance());
    return a->Multiplier() == b->Multiplier() && a->MaxDistance() == b->MaxDistance() ? 0 : 1;
}
'''
