prop="C22"
needs="comparing a cone with a direction distribution of another class, in that order"
breaks="Cone::equal trusts the category of the distribution (any direction distribution) instead of the cast, and dereferences null"
edits=[("projects/distributions/private/primary/direction/Cone.cxx",
"    const Cone* x = dynamic_cast<const Cone*>(&other);\n\n    if(!x)\n        return false;",
"    const Cone* x = dynamic_cast<const Cone*>(&other);\n    const PrimaryDirectionDistribution* d = dynamic_cast<const PrimaryDirectionDistribution*>(&other);\n\n    if(!d)\n        return false;")]
demo=r'''
#include <cstdio>
#include "SIREN/distributions/primary/direction/Cone.h"
#include "SIREN/distributions/primary/direction/FixedDirection.h"
#include "SIREN/distributions/primary/energy/Monoenergetic.h"
#include "SIREN/math/Vector3D.h"
using namespace siren::distributions;
int main() {
    siren::math::Vector3D z(0, 0, 1);
    Cone c(z, 0.1); FixedDirection f(z); Monoenergetic m(1.0);
    WeightableDistribution const & a = c; WeightableDistribution const & b = f; WeightableDistribution const & e = m;
    if(a == e) return 1;
    if(not (a == a)) return 1;
    if(b == a) return 1;
    if(a == b) return 1;
    std::printf("distinct\n");
    return 0;
}
'''
