"""Fresh, independent instances of the s2wav package ("simulated processes").

Each source file is read and compiled once per interpreter, from the working
tree in /repo; every instance executes the module bodies again in new module
objects, so module-level state starts from scratch: loading an instance is
what a process start is in the simulation, dropping one is a crash.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types
import warnings
import contextlib

from . import boot, disk

PKG = "s2wav"
_codes = {}  # (path, optimisation level) -> code object
_all_codes = []  # every (nested) code object, for the step monitor
_names = None
_on_code = []  # callbacks told about new code objects


def _nested(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from _nested(c)


_opt = -1  # optimisation level the next modules are compiled with


def code_for(path):
    c = _codes.get((path, _opt))
    if c is None:
        with open(path, "rb") as fh:
            src = fh.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = compile(src, path, "exec", dont_inherit=True, optimize=_opt)
        _codes[path, _opt] = c
        for n in _nested(c):
            _all_codes.append(n)
            for cb in _on_code:
                cb(n)
    return c


class _Loader(importlib.abc.InspectLoader):
    def __init__(self, path, pkg):
        self.path, self.pkg = path, pkg

    def is_package(self, fullname):
        return self.pkg

    def get_source(self, fullname):
        with open(self.path) as fh:
            return fh.read()

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = disk.site(self.path)
        exec(code_for(self.path), module.__dict__)

    def get_filename(self, fullname):
        return self.path


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        base = os.path.join(boot.REPO, *fullname.split("."))
        for p, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(p):
                spec = importlib.util.spec_from_loader(
                    fullname, _Loader(p, pkg), origin=p, is_package=pkg
                )
                spec.has_location = True
                if pkg:
                    spec.submodule_search_locations = [base]
                return spec
        return None


_finder = _Finder()
sys.meta_path.insert(0, _finder)


def _grab():
    global _names
    if _names is None:
        _names = [PKG] + submodules()
    m = sys.modules
    return {k: m[k] for k in _names if k in m}


def _drop():
    for k in list(_grab()):
        del sys.modules[k]


class Instance:
    """One loaded copy of the package."""

    _n = 0

    def __init__(self, importer=None, opt=-1):
        """`opt`: as an interpreter started with -O (1) or -OO (2) loads it."""
        global _opt
        Instance._n += 1
        self.n = Instance._n
        saved = _grab()
        _drop()
        _opt = opt
        try:
            (importer or _import_all)()
            self.modules = _grab()
        finally:
            _opt = -1
            _drop()
            sys.modules.update(saved)

    @contextlib.contextmanager
    def active(self):
        """Make this instance the one `import s2wav` resolves to."""
        saved = _grab()
        if saved == self.modules:
            yield self
            return
        _drop()
        sys.modules.update(self.modules)
        try:
            yield self
        finally:
            self.modules.update(_grab())
            _drop()
            sys.modules.update(saved)

    def get(self, dotted):
        mod, attr = dotted.rsplit(".", 1)
        return getattr(self.modules[mod], attr)


def _import_all():
    import importlib

    importlib.import_module(PKG)
    for name in submodules():
        importlib.import_module(name)


_subs = []


def submodules():
    if _subs:
        return list(_subs)
    root = os.path.join(boot.REPO, PKG)
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), boot.REPO)[:-3]
                parts = rel.split(os.sep)
                if parts[-1] == "__init__":
                    parts = parts[:-1]
                out.append(".".join(parts))
    _subs.extend(sorted(set(out)))
    return list(_subs)
