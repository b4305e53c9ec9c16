prop="C14"
needs="a cross section written in Python that overrides GetPossibleSignaturesFromParents and is asked through C++ with different primary and target"
breaks="the Python override receives target and primary swapped"
edits=[("projects/interactions/private/pyCrossSection.cxx", r'''        "GetPossibleSignaturesFromParents",
        primary_type,
        target_type
    )''', r'''        "GetPossibleSignaturesFromParents",
        target_type,
        primary_type
    )''')]
demo=r'''
#include <cstdio>
#include <memory>
#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include "SIREN/interactions/CrossSection.h"
#include "SIREN/interactions/pyCrossSection.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/dataclasses/InteractionSignature.h"
namespace py = pybind11; using namespace siren::interactions; using namespace siren::dataclasses;
PYBIND11_EMBEDDED_MODULE(mini, m) {
    py::enum_<ParticleType>(m, "ParticleType").value("NuMu", ParticleType::NuMu).value("PPlus", ParticleType::PPlus);
    py::class_<InteractionSignature, std::shared_ptr<InteractionSignature>>(m, "Sig").def(py::init<>())
      .def_readwrite("primary_type", &InteractionSignature::primary_type).def_readwrite("target_type", &InteractionSignature::target_type);
    py::class_<CrossSection, std::shared_ptr<CrossSection>, pyCrossSection>(m, "CrossSection").def(py::init<>());
}
int main() {
    py::scoped_interpreter g;
    py::exec("import mini\nclass D(mini.CrossSection):\n  def GetPossibleSignaturesFromParents(self, primary, target):\n    s = mini.Sig()\n    s.primary_type = primary\n    s.target_type = target\n    return [s]\nd = D()\n", py::globals());
    CrossSection * d = py::globals()["d"].cast<CrossSection*>();
    auto v = d->GetPossibleSignaturesFromParents(ParticleType::NuMu, ParticleType::PPlus);
    return v.size() == 1 && v[0].primary_type == ParticleType::NuMu && v[0].target_type == ParticleType::PPlus ? 0 : 1;
}
'''
