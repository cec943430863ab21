"""Import system for instrumented packages."""
import builtins
import importlib
import importlib.machinery
import importlib.util
import os
import sys
import types
from . import engine as en
from . import rt
from . import transform

REPO = os.environ.get("SYMX_REPO", "/repo")
SITE = None
for _b in ("/opt/venv-pypy/lib/pypy3.9/site-packages",
           "/opt/venv-pypy/site-packages"):
    if os.path.isdir(_b):
        SITE = _b
if SITE is None:
    import glob
    SITE = (glob.glob("/opt/venv-pypy/lib/*/site-packages") or [""])[0]

INSTRUMENTED = {"graphtransliterator": REPO, "marshmallow": SITE}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SOURCES = {}  # repo file -> True, for evidence
_shims = {}


def shims():
    if not _shims:
        from . import files
        from .shims import json_, misc, re_
        files.patch_pathlib()
        _shims.update(
            re=re_, json=json_, collections=misc.collections, logging=misc.logging,
            unicodedata=misc.unicodedata, yaml=misc.yaml,
            os=files.os_, shutil=files.shutil_, io=files.io_,
        )
    return _shims


class Helpers:
    """The name `__symx__` of instrumented modules."""

    sym_in = staticmethod(rt.sym_in)
    sym_notin = staticmethod(rt.sym_notin)
    sym_dict = staticmethod(rt.sym_dict)
    sym_fstr = staticmethod(rt.sym_fstr)
    sym_mod = staticmethod(rt.sym_mod)
    sym_meth = staticmethod(rt.sym_meth)
    SymSet = rt.SymSet
    _STAR = rt._STAR

    @staticmethod
    def enter(name):
        e = en.CUR
        if e is not None and e.active:
            e.enter(name)

    @staticmethod
    def tick():
        e = en.CUR
        if e is not None and e.active:
            e.tick()


def importer(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split(".")[0]
        if top == "hlib" or (len(top) == 3 and top[0] == "c" and top[1:].isdigit()):
            return sys.modules.get("symh_" + top) or load_harness(top)
        s = shims()
        if name in s:
            return s[name]
        if top in s:
            m = builtins.__import__(name, globals, locals, fromlist, level)
            return m if fromlist else s[top]
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = rt.make_builtins(importer)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.path
        with open(path, "rb") as f:
            src = f.read()
        tag = ""
        if path.startswith(REPO + "/"):
            tag = os.path.relpath(path, REPO)
            SOURCES[tag] = True
        return transform.instrument(src, path, tag)

    def exec_module(self, module):
        code = self.get_code(module.__name__)
        module.__dict__["__builtins__"] = BUILTINS
        module.__dict__["__symx__"] = Helpers
        exec(code, module.__dict__)


class Finder:
    @staticmethod
    def find_spec(fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in INSTRUMENTED:
            return None
        parts = fullname.split(".")
        base = os.path.join(INSTRUMENTED[top], *parts)
        if os.path.isfile(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, f, loader=Loader(fullname, f), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            f = base + ".py"
            return importlib.util.spec_from_file_location(
                fullname, f, loader=Loader(fullname, f))
        return None


class _OldLoader:
    """The loader protocol used by transliterators/__init__ (find_module)."""

    def __init__(self, spec):
        self.spec = spec

    def load_module(self, name):
        loc = self.spec.origin
        sub = self.spec.submodule_search_locations
        spec = importlib.util.spec_from_file_location(
            name, loc, loader=Loader(name, loc), submodule_search_locations=sub)
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
        return m


def install():
    if Finder not in sys.meta_path:
        sys.meta_path.insert(0, Finder)
        if not hasattr(importlib.machinery.FileFinder, "find_module"):
            importlib.machinery.FileFinder.find_module = (
                lambda self, name, path=None: _OldLoader(self.find_spec(name))
            )
    sys.dont_write_bytecode = True


def load_harness(name):
    """Instrumented copy of harness/<name>.py."""
    path = os.path.join(HERE, "harness", name + ".py")
    full = "symh_" + name
    spec = importlib.util.spec_from_file_location(full, path, loader=Loader(full, path))
    m = importlib.util.module_from_spec(spec)
    sys.modules[full] = m
    spec.loader.exec_module(m)
    return m


HARNESS = {}


def preload(name):
    HARNESS[name] = load_harness(name)
    pre = getattr(HARNESS[name], "PRELOAD", ["graphtransliterator"])
    for m in pre:
        importlib.import_module(m)
