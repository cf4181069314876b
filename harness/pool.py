"""Running many sessions on the real editor, in parallel processes."""
import os
from multiprocessing import Pool, Value

_hangs = None


def _init(v):
    global _hangs
    _hangs = v


def _one(a):
    s, ed, timeout = a
    if _hangs.value > 6:
        s.out, s.err, s.status, s.fin, s.left = b"", b"", -1, {}, []
        return s
    s.run(ed, timeout if _hangs.value < 3 else 3)
    if s.status == 1999:
        with _hangs.get_lock():
            _hangs.value += 1
    return s


def run(sessions, ed, timeout=12, procs=8):
    """Runs each; those not run because too many hung have status -1."""
    v = Value("i", 0)
    with Pool(procs, _init, (v,)) as p:
        return p.map(_one, [(s, ed, timeout) for s in sessions], chunksize=max(1, min(25, len(sessions) // procs or 1)))
