"""Loads the package under test from the working tree (never from elsewhere)."""
import importlib.util
import itertools
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
_n = itertools.count()
sys.dont_write_bytecode = True


def _from_source():
    """The code under test is compiled from its current source, never taken from a stored .pyc file,
    and each source text only once: fresh copies of the package differ in their state, not in their code."""
    from importlib.machinery import SourceFileLoader
    compiled, plain = {}, SourceFileLoader.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if not path.startswith(os.path.join(REPO, "sqlparams") + os.sep):
            return plain(self, fullname)
        data = self.get_data(path)
        if (path, data) not in compiled:
            compiled[path, data] = self.source_to_code(data, path)
        return compiled[path, data]
    SourceFileLoader.get_code = get_code


_from_source()


def load(name=None, keep=True):
    """Execute the package under a private name; returns its module."""
    name = name or "sqlparams_v%d" % next(_n)
    path = os.path.join(REPO, "sqlparams")
    sp = importlib.util.spec_from_file_location(name, os.path.join(path, "__init__.py"),
                                                submodule_search_locations=[path])
    m = importlib.util.module_from_spec(sp)
    sys.modules[name] = m
    try:
        sp.loader.exec_module(m)
    finally:
        if not keep:
            for k in [k for k in sys.modules if k == name or k.startswith(name + ".")]:
                m.__dict__.setdefault("_keep", []).append(sys.modules[k])
                if k != name:
                    del sys.modules[k]
            sys.modules.pop(name, None)
    return m


def fresh_class():
    return load(keep=False).SQLParams
