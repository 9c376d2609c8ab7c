import sys
"""Scratch directories of a simulated run (created and removed by it).

The directory a run sees always has the same name, so that paths cannot make two runs of a seed differ; it is the
zygote child's own directory because the name carries the slot of the zygote."""
import os, shutil, tempfile

BASE = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()


class Dir:
    def __init__(self, tag="d"):
        self.tag = tag

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="dst-%s-" % self.tag, dir=BASE)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
        return False


class Stderr:
    """what the code under test writes to file descriptor 2"""

    def __enter__(self):
        sys.stderr.flush()
        self.f = tempfile.TemporaryFile()
        self.old = os.dup(2)
        os.dup2(self.f.fileno(), 2)
        return self

    def __exit__(self, *a):
        sys.stderr.flush()
        os.dup2(self.old, 2)
        os.close(self.old)
        self.f.seek(0)
        self.text = self.f.read().decode("latin-1")
        self.f.close()
