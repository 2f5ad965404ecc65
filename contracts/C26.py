"""C26: no two iterations of a parallel loop touch the same memory unless both read or both update atomically.

Every kernel the library runs in parallel is reached through the contracts of the functions that launch it; here those contracts are
run for the parallel executors and only their race-freedom obligations are discharged (what the kernels compute is decided by the
properties the contracts come from)."""
import importlib

# property -> element kinds are all kept; one parallel executor suffices, the two differ in nothing but their name
SOURCES = ["C11", "C13", "C15", "C16", "C17", "C18", "C20", "C31"]


def only_races(f):
    def g(c):
        c.only = "no data race"
        f(c)
    return g


PARTS = []
for _p in SOURCES:
    _m = importlib.import_module("contracts." + _p)
    for _u, _cs in getattr(_m, "PARTS", None) or [(_m.UNIT, _m.CONTRACTS)]:
        _k = [("%s: %s" % (_p, n), only_races(f)) for n, f in _cs if "CPUExecutor" in n and "SerialExecutor" not in n and "GPUExecutor" not in n]
        if _k:
            PARTS.append((_u, _k))
