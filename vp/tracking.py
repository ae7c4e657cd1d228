"""Installed before starlette is imported: spooled temporary files that remember
where (which thread) disk operations happened and whether they were closed."""
from __future__ import annotations

import tempfile
import threading

_Real = tempfile.SpooledTemporaryFile
FILES: list = []  # every spooled file created since the last reset(): kept alive, so that only an explicit close counts
DISK_OPS: list = []  # (operation, thread id) of every operation that touched, or moved data to, the disk
STATS = {"created": 0, "rolled": 0}


class TrackedSpooledTemporaryFile(_Real):
    def __init__(self, *a, **k):
        self._vp_rolled = False
        super().__init__(*a, **k)
        STATS["created"] += 1
        FILES.append(self)

    def rollover(self):
        if not self._rolled:
            STATS["rolled"] += 1
            DISK_OPS.append(("rollover", threading.get_ident()))
        self._vp_rolled = True
        return super().rollover()

    def _vp_op(self, name):
        if self._rolled:
            DISK_OPS.append((name, threading.get_ident()))

    def write(self, *a):
        self._vp_op("write")
        return super().write(*a)

    def read(self, *a):
        self._vp_op("read")
        return super().read(*a)

    def seek(self, *a):
        self._vp_op("seek")
        return super().seek(*a)

    def close(self):
        self._vp_op("close")
        return super().close()

    def truncate(self, size=None):
        return super().truncate(size)


def reset():
    for f in FILES:
        try:
            f.close()
        except Exception:
            pass
    FILES.clear()
    DISK_OPS.clear()
    STATS["created"] = STATS["rolled"] = 0


def still_open():
    return [f for f in FILES if not f.closed]


tempfile.SpooledTemporaryFile = TrackedSpooledTemporaryFile
