"""Loads fresh instances of the repository's modules from /repo/src, one set per simulated process."""
import os
import sys
import types

REPO = os.environ.get("DST_REPO", "/repo")
SRC = os.path.join(REPO, "src")

_code = {}


def _names():
    out = {}
    for base, prefix in ((SRC, ""), (os.path.join(SRC, "paper"), "")):
        for f in sorted(os.listdir(base)):
            if f.endswith(".py") and not f.endswith("_test.py"):
                out[prefix + f[:-3]] = os.path.join(base, f)
    return out


PATHS = _names()


def code_of(name):
    if name not in _code:
        with open(PATHS[name], "rb") as f:
            _code[name] = compile(f.read(), PATHS[name], "exec", dont_inherit=True)
    return _code[name]


def preload():
    """Compiles everything and imports the third-party dependencies once (before workers fork)."""
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import csv, shlex, argparse, functools, dataclasses, glob, fnmatch, locale, encodings.utf_8, encodings.ascii  # noqa
    import numpy, stim, networkx, pymatching, scipy.stats, scipy.optimize, scipy.stats._stats_mstats_common  # noqa
    for n in PATHS:
        code_of(n)


class _Finder:
    """Meta path hook serving repository modules from the active module set."""

    active = None
    on_exec = None

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if cls.active is None or name not in PATHS:
            return None
        import importlib.machinery
        return importlib.machinery.ModuleSpec(name, cls, origin=PATHS[name])

    @classmethod
    def create_module(cls, spec):
        m = types.ModuleType(spec.name)
        m.__file__ = PATHS[spec.name]
        return m

    @classmethod
    def exec_module(cls, module):
        exec(code_of(module.__name__), module.__dict__)
        if cls.on_exec is not None:
            cls.on_exec(module)


sys.meta_path.insert(0, _Finder)


class ModuleSet:
    """The repository modules of one simulated process; swapped into sys.modules while it runs."""

    def __init__(self):
        self.mods = {}
        self.saved = {}

    def activate(self):
        self.saved = {n: sys.modules.pop(n) for n in PATHS if n in sys.modules}
        sys.modules.update(self.mods)
        _Finder.active = self

    def deactivate(self):
        for n in PATHS:
            m = sys.modules.pop(n, None)
            if m is not None:
                self.mods[n] = m
        sys.modules.update(self.saved)
        _Finder.active = None

    def load(self, name):
        """Import within an active set (or activate temporarily)."""
        import importlib
        if _Finder.active is self:
            return importlib.import_module(name)
        self.activate()
        try:
            return importlib.import_module(name)
        finally:
            self.deactivate()
