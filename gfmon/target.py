"""Import the code under test from /repo's working tree (never from a copy)."""
import os
import sys
import types
import warnings

REPO = os.environ.get("GFMON_REPO", "/repo")


def load():
    """Import `gftool` from `REPO`; the generated `_version` module is stubbed if absent."""
    if "gftool" in sys.modules:
        return sys.modules["gftool"]
    sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, "gftool", "_version.py")):
        stub = types.ModuleType("gftool._version")
        stub.__version__ = stub.version = "0.0.0"
        stub.__version_tuple__ = stub.version_tuple = (0, 0, 0)
        sys.modules["gftool._version"] = stub
    warnings.simplefilter("ignore")
    import gftool
    import gftool.basis.pole
    import gftool.hermpade
    import gftool.linalg
    import gftool.pade
    import gftool.statistics  # noqa: F401
    where = os.path.realpath(gftool.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"gftool imported from {where}, not from {REPO}")
    return gftool
