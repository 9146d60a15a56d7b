"""Imports pyodrx afresh from /repo's working tree (never from bytecode, never from another copy)."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("MC_REPO", "/repo")
sys.dont_write_bytecode = True


class _Loader(importlib.machinery.SourceFileLoader):
    cache = {}

    def get_code(self, name):
        if name not in self.cache:
            with open(self.path, "rb") as f:
                self.cache[name] = compile(f.read(), self.path, "exec", dont_inherit=True)
        return self.cache[name]


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] != "pyodrx":
            return None
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f), submodule_search_locations=[p])
        if os.path.isfile(p + ".py"):
            return importlib.util.spec_from_file_location(name, p + ".py", loader=_Loader(name, p + ".py"))
        return None


_installed = False


def load():
    """A freshly executed copy of the package; earlier copies stay usable by whoever holds them."""
    global _installed
    if not _installed:
        sys.meta_path.insert(0, _Finder())
        _installed = True
    for k in [k for k in sys.modules if k.split(".")[0] == "pyodrx"]:
        del sys.modules[k]
    import pyodrx
    import pyodrx.exceptions  # noqa: F401  (not re-exported by the package)
    assert os.path.realpath(pyodrx.__file__).startswith(os.path.realpath(REPO) + os.sep), pyodrx.__file__
    return pyodrx
