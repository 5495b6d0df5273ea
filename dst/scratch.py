"""Per-run scratch directory (removed when the run ends)."""
import contextlib
import os
import shutil
import tempfile


# Names a user may give a session file
NAMES = ("s.json", "t.json", "session 1.json", " s.json", "s .json", "a.b.c.json", "-s.json",
         "100%.json", "s{0}.json", "\u00e9\u2192.json", "s\n.json", "x" * 190 + ".json", "S.json",
         "'s'.json", "$HOME.json", "~.json", "*.json")


@contextlib.contextmanager
def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    path = tempfile.mkdtemp(prefix="dst-", dir=base)
    cwd = os.getcwd()
    try:
        yield path
    finally:
        os.chdir(cwd)
        shutil.rmtree(path, ignore_errors=True)
