prop="C23"
needs="a caller that catches the refusal of a duplicate injection distribution and goes on with the process"
breaks="a refused duplicate is left among the physical distributions, so its density is applied twice"
edits=[("projects/injection/private/Process.cxx",
'''    for(auto _dist: primary_injection_distributions) {
        if((*_dist) == (*dist))
            throw std::runtime_error("Cannot add duplicate PrimaryInjectionDistributions");
    }
    primary_injection_distributions.push_back(dist);
    physical_distributions.push_back(std::static_pointer_cast<distributions::WeightableDistribution>(dist));
''',
'''    physical_distributions.push_back(std::static_pointer_cast<distributions::WeightableDistribution>(dist));
    for(auto _dist: primary_injection_distributions) {
        if((*_dist) == (*dist))
            throw std::runtime_error("Cannot add duplicate PrimaryInjectionDistributions");
    }
    primary_injection_distributions.push_back(dist);
''')]
demo=r'''
#include <cstdio>
#include <memory>
#include <stdexcept>
#include "SIREN/injection/Process.h"
#include "SIREN/distributions/primary/mass/PrimaryMass.h"
#include "SIREN/distributions/primary/helicity/PrimaryNeutrinoHelicityDistribution.h"
using namespace siren;
int main() {
    injection::PrimaryInjectionProcess p;
    p.AddPrimaryInjectionDistribution(std::make_shared<distributions::PrimaryMass>(0.1));
    p.AddPrimaryInjectionDistribution(std::make_shared<distributions::PrimaryNeutrinoHelicityDistribution>());
    bool thrown = false;
    try { p.AddPrimaryInjectionDistribution(std::make_shared<distributions::PrimaryMass>(0.1)); } catch(std::exception const &) { thrown = true; }
    std::printf("%d %zu %zu\n", thrown, p.GetPrimaryInjectionDistributions().size(), p.GetPhysicalDistributions().size());
    return thrown && p.GetPhysicalDistributions().size() == 2 ? 0 : 1;
}
'''
