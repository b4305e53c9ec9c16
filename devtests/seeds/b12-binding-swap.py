prop="C15"
needs="a Python caller of the bindings that reads or writes a particle's length"
breaks="Python's Particle.length stands for the helicity member"
edits=[("projects/dataclasses/private/pybindings/dataclasses.cxx",
'.def_readwrite("length",&Particle::length)', '.def_readwrite("length",&Particle::helicity)')]
pydemo=r'''
import os, sys
sys.path.insert(0, os.path.join(os.environ["REPO"], "_build/projects/dataclasses"))
import dataclasses as dc
if not hasattr(dc, "Particle"):
    import importlib.util, glob
    so = glob.glob(os.path.join(os.environ["REPO"], "_build/projects/dataclasses/dataclasses*.so"))[0]
    spec = importlib.util.spec_from_file_location("dataclasses", so)
    dc = importlib.util.module_from_spec(spec); spec.loader.exec_module(dc)
p = dc.Particle()
p.helicity = -0.5
p.length = 3.0
sys.exit(0 if (p.length, p.helicity) == (3.0, -0.5) else 1)
'''
