"""C01: the dynamic engine (default): once each, after its predecessors, in every run."""
from .topo import *
from . import topo
RUN = engine_contracts()
SET = [topo.GetTopo(), topo.IsDag(), CalcShape(), Mark(), Analysis(), Matrix(), DynSetup()]
for grp in (RUN, SET):
    for c in grp: c.registry = grp
CONTRACTS = RUN + SET
VERIFY = [c for c in RUN if not c.trusted] + SET
DRIVERS = ["c01"]
DRIVER_SECONDS = 40
NOTE = ("Proved for every finite graph, every interleaving (rely/guarantee over ghost start permissions, sequentially consistent) and every element result: each function of GDynamicEngine "
        "(prepareRun, run, the three run strategies, process, innerExec, afterElementRun, parallelRunOne) starts an element only with the permission created by consuming its last incoming edge, spends every permission unless an error is recorded, "
        "and leaves the pending counts at rest for the next run; the set-up functions establish what the run relies on. Assumed: the thread pool executes each accepted task exactly once (C22), the element's own bracket (C06), "
        "finite-set counting lemmas, symmetric edges (C10). The replay driver is bounded and only searches for failing inputs.")
