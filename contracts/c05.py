"""C05: a failing element fails the run; nothing downstream of it runs; the next run starts clean."""
from .engine import *
from . import static
RUN = engine_contracts()
WAV = [static.RunsElement(), static.Commit(), static.StaticRun(), static.TopoRun()]
for grp in (RUN, WAV):
    for c in grp: c.registry = grp
CONTRACTS = RUN + WAV
VERIFY = [c for c in CONTRACTS if not c.trusted and not isinstance(c, (ParallelRun,))]
DRIVERS = ["c05"]
DRIVER_SECONDS = 40
NOTE = ("Proved for every graph, interleaving and result: an element starts only when all its predecessors ended without error; the first recorded error is kept and is one that an element reported; an element's error is recorded before its task ends; run() reports the recorded status; prepareRun clears the error and restores the pending counts of an aborted run. "
        "The same for the static engine (joined results) and the topological one. Assumed: thread pool (C22), the element's bracket turns exceptions into error statuses (C06), finite-set lemmas. The replay driver is bounded and only searches for failing inputs.")
