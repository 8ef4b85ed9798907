"""Lets `import opensfm` find the extension modules built in /verif/build."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
NAMES = ("pybundle", "pydense", "pyfeatures", "pygeo", "pygeometry", "pymap",
         "pyrobust", "pysfm")


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, moddir):
        self.moddir = moddir

    def find_spec(self, name, path=None, target=None):
        if name.startswith("opensfm.") and name.split(".", 1)[1] in NAMES:
            so = os.path.join(self.moddir, name.split(".", 1)[1] + ".so")
            loader = importlib.machinery.ExtensionFileLoader(name, so)
            return importlib.util.spec_from_file_location(name, so, loader=loader)
        if name == "vprobe":
            so = os.path.join(self.moddir, "vprobe.so")
            loader = importlib.machinery.ExtensionFileLoader(name, so)
            return importlib.util.spec_from_file_location(name, so, loader=loader)
        return None


def install(moddir=None):
    moddir = moddir or os.environ.get("VERIF_MODULES", "/verif/build/rel/modules")
    sys.dont_write_bytecode = True
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder(moddir))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


if os.environ.get("VERIF_MODULES_PLUGIN"):
    install()
