"""C04: run() returns exactly when the run is over, and the caller is always woken."""
from .engine import *
from . import static
RUN = [c for c in engine_contracts() if not isinstance(c, (SerialRun, Run, Prepare))]
WAV = [static.RunsElement(), static.Commit(), static.StaticRun()]
for grp in (RUN, WAV):
    for c in grp: c.registry = grp
CONTRACTS = RUN + WAV
VERIFY = [c for c in CONTRACTS if not c.trusted]
DRIVERS = ["c04"]
DRIVER_SECONDS = 40
NOTE = ("Proved for every graph and interleaving: the caller of a dynamic run sleeps on exactly the announced condition (all ends reached, or an error recorded with nothing in flight; all elements counted, for a graph without edges), every step that makes it true is followed by a notification under the caller's mutex, "
        "the condition is never undone, and the run returns only once it holds; the static engine joins every started element before returning. Assumed: the library's condition variable, the thread pool (C22). Not covered by a proof: termination of the elements themselves and of the pool's scheduling; "
        "parallel groups are covered by the bounded replay driver only.")
