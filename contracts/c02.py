"""C02: the static engine (waves) and the topological engine (one by one)."""
from .static import *
from . import topo
SET = [PlainRefresh(), StaticSetup()]
TOP = [topo.GetTopo(), topo.IsDag(), TopoSetup()]
RUN = [RunsElement(), Commit(), StaticRun(), TopoRun()]
for grp in (SET, TOP, RUN):
    for c in grp: c.registry = grp
CONTRACTS = SET + TOP + RUN
VERIFY = [c for c in CONTRACTS if not c.trusted]
DRIVERS = ["c02"]
DRIVER_SECONDS = 30
NOTE = ("Proved for every finite graph and every element result: the set-up of the static engine puts every element into exactly one wave after all its predecessors, its run starts each element of a wave once, only after every earlier wave was joined, "
        "and returns only when nothing is running; the topological engine's order is a linear extension and its run executes it one by one in the calling thread. Assumed: a task committed to the pool is executed once and its future yields its result (C22), "
        "the element's own bracket (C06), finite-set lemmas. The replay driver is bounded and only searches for failing inputs.")
