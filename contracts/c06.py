"""C06: GElement::fatProcessor and what it calls (contracts in life.py)."""
from .life import *
CONTRACTS = life()
VERIFY = [c for c in CONTRACTS if type(c).__name__ in ("Fat", "Crashed", "IsRunnable", "GetCurState", "CheckSuspend")]
DRIVERS = ["c06"]
DRIVER_SECONDS = 8
NOTE = "GElement::fatProcessor is proved against a ghost automaton of callbacks for every loop count, hold behaviour, callback result, exception and concurrent state change; assumed: user callbacks do not edit the element's private configuration while it runs (C12 refuses it), prepareRun returns no positive code."
