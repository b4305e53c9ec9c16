prop="C25"
needs="a placement that is rotated but not shifted, with a direction that the rotation changes"
breaks="GlobalToLocalDirection skips the rotation whenever the placement's position is zero, so a direction is not converted back for a rotated solid at the origin"
edits=[("projects/geometry/private/Placement.cxx",
"    siren::math::Vector3D p1 = quaternion_.rotate(p0, true); // Inverse rotatation about local origin to get orientation in the local system\n    return p1;",
"    if(position_.magnitude() == 0) { // nothing to convert at the origin\n        return p0;\n    }\n    siren::math::Vector3D p1 = quaternion_.rotate(p0, true); // Inverse rotatation about local origin to get orientation in the local system\n    return p1;")]
demo=r'''
#include <cmath>
#include <cstdio>
#include "SIREN/geometry/Placement.h"
#include "SIREN/math/Vector3D.h"
#include "SIREN/math/Quaternion.h"
#include "SIREN/math/EulerQuaternionConversions.h"
using namespace siren;
int main() {
    for(int shifted = 0; shifted < 2; ++shifted) {
        geometry::Placement p(math::Vector3D(shifted * 3.0, 0, shifted * 1.0), math::QFromZXZr(0.3, 0.9, -0.4));
        math::Vector3D d(0.6, 0.0, 0.8);
        math::Vector3D back = p.GlobalToLocalDirection(p.LocalToGlobalDirection(d));
        if((back - d).magnitude() > 1e-9) return 1;
        math::Vector3D q = p.GlobalToLocalPosition(p.LocalToGlobalPosition(d));
        if((q - d).magnitude() > 1e-9) return 1;
    }
    std::printf("ok\n");
    return 0;
}
'''
