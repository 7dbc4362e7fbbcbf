"""C03: cyclic graphs are refused, acyclic ones accepted (all engines), and a refused graph is not initialised and not executed."""
from .topo import *
from .topo import GetTopo, IsDag
from . import static, manager
TOPO = [GetTopo(), IsDag(), CalcShape(), Mark(), Analysis(), Matrix(), DynSetup(), TopoSetup()]
STAT = [static.PlainRefresh(), static.StaticSetup()]
for grp in (TOPO, STAT, manager.MGR, manager.MPR):
    for c in grp: c.registry = grp
CONTRACTS = TOPO + STAT + manager.MGR + manager.MPR
VERIFY = [c for c in CONTRACTS if not c.trusted and not c.inline_only]
DRIVERS = ["c03"]
DRIVER_SECONDS = 30
NOTE = ("Proved for every finite graph: getTopo orders exactly the elements not held back by a cycle, isDag and the three engines' setup accept exactly the graphs with a rank function (acyclic) and refuse with a set in which every element has a predecessor of the set (cyclic); "
        "GElementManager::initEngine/init/process analyse exactly the given elements first, and neither initialise nor execute anything of a refused graph. Assumed: finite-set lemmas (a proper subset is smaller; finite descent), symmetric edges (C10). "
        "The replay driver is bounded and only searches for failing inputs.")
