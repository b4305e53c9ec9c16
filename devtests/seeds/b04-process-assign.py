prop="C06"
needs="move-assign a primary injection process over one that already holds physical distributions or another primary type"
breaks="move assignment of a PrimaryInjectionProcess skips the physical part, so the target keeps its old physical distributions"
edits=[("projects/injection/private/Process.cxx",
"PrimaryInjectionProcess & PrimaryInjectionProcess::operator=(PrimaryInjectionProcess && other) {\n    PhysicalProcess::operator=(other);","PrimaryInjectionProcess & PrimaryInjectionProcess::operator=(PrimaryInjectionProcess && other) {\n    Process::operator=(other);")]
demo=r'''
#include <cstdio>
#include <memory>
#include "SIREN/injection/Process.h"
#include "SIREN/distributions/primary/energy/Monoenergetic.h"
using namespace siren::injection; using namespace siren::distributions; using siren::dataclasses::ParticleType;
int main() {
    PrimaryInjectionProcess a(ParticleType::NuMu, nullptr), b(ParticleType::NuE, nullptr);
    a.AddPrimaryInjectionDistribution(std::make_shared<Monoenergetic>(1.0));
    b = std::move(a);
    std::printf("%zu %zu\n", b.GetPrimaryInjectionDistributions().size(), b.GetPhysicalDistributions().size());
    return b.GetPrimaryInjectionDistributions().size() == 1 && b.GetPhysicalDistributions().size() == 1 ? 0 : 1;
}
'''
