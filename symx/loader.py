"""Loads the current source of /repo/pyGCodeDecode twice: the real package for concrete replays and a copy
whose builtins / numpy / math / re / yaml / IO names resolve to the symbolic stand-ins."""
import ast
import builtins
import importlib
import os
import sys
import types

from . import core, shims

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "pyGCodeDecode"
ALIAS = "symgcd"


# ---------------------------------------------------------------- plotting back ends (never under test)
class Recorder:
    """stand-in for a plotting object: records calls, returns itself for anything"""

    log = []

    def __init__(self, name="obj"):
        object.__setattr__(self, "_n", name)
        object.__setattr__(self, "_items", {})

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Recorder(self._n + "." + n)

    def __setattr__(self, n, v):
        object.__setattr__(self, n, v)

    def __call__(self, *a, **k):
        Recorder.log.append((self._n, a, k))
        return Recorder(self._n + "()")

    def __setitem__(self, k, v):
        Recorder.log.append((self._n + "[]=", (self, k, v), {}))
        self._items[k] = v

    def __getitem__(self, k):
        return self._items.get(k, Recorder(self._n + "[]"))

    def __iter__(self):
        return iter((Recorder(self._n + "#0"), Recorder(self._n + "#1")))

    def __or__(self, o):
        return self

    __ror__ = __or__


def recorder_module(name):
    m = types.ModuleType(name)
    m.__getattr__ = lambda n: Recorder(f"{name}.{n}")
    m.__path__ = []
    return m


STUBS = ["pyvista", "matplotlib", "matplotlib.pyplot", "matplotlib.figure", "matplotlib.cm",
         "matplotlib.collections"]


def install_stubs():
    """plotting libraries are replaced by recorders in this process (both worlds)"""
    for s in STUBS:
        if s not in sys.modules or not isinstance(sys.modules[s], types.ModuleType) or not hasattr(sys.modules[s], "_verif"):
            m = recorder_module(s)
            m._verif = True
            sys.modules[s] = m
            if "." in s:
                p, c = s.rsplit(".", 1)
                setattr(sys.modules[p], c, m)


def load_real():
    """the unpatched package, imported from REPO"""
    install_stubs()
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    pk = importlib.import_module(PKG)
    f = os.path.realpath(pk.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"wrong package: {f}")
    mods = types.SimpleNamespace()
    for n in MODS:
        setattr(mods, n, importlib.import_module(f"{PKG}.{n}"))
    mods.package = pk
    mods.module = lambda n: importlib.import_module(f"{PKG}.{n}")
    return mods


MODS = ["utils", "state", "state_generator", "junction_handling", "planner_block", "gcode_interpreter",
        "tools", "abaqus_file_generator", "helpers"]


class SymLoader:
    def __init__(self, re_mod=None):
        self.mods = {}
        self.shim = {"numpy": shims.np_shim, "math": shims.math_shim, "yaml": shims.YamlShim()}
        if re_mod is not None:
            self.shim["re"] = re_mod
        self.shim["numpy.linalg"] = shims.np_shim.linalg
        self.shim["time"] = _time_shim()
        self.shim["sys"] = _sys_shim()
        from . import vpath

        self.shim["pathlib"] = vpath.module()
        self.shim["importlib"], self.shim["importlib.resources"] = _importlib_shim(vpath.Path)
        self.shim["os"] = vpath.os_module()
        b = dict(vars(builtins))
        b.update(float=shims.Float, int=shims.Int, bool=shims.Bool, str=shims.Str, type=shims.Type,
                 isinstance=shims.Isinstance, issubclass=shims.Issubclass, round=shims.Round,
                 open=shims._open, print=shims.Print, sum=shims.Sum, __import__=self._import)
        self.builtins = b
        self.files = []

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ALIAS
            base = pkg.split(".")
            if level > 1:
                base = base[: -(level - 1)]
            full = ".".join(base + ([name] if name else []))
        else:
            full = name
        if full == PKG or full.startswith(PKG + "."):
            full = ALIAS + full[len(PKG):]
        if full == ALIAS or full.startswith(ALIAS + "."):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(full + "." + f))
                        except FileNotFoundError:
                            pass
                return m
            return self.load(ALIAS)
        if full in self.shim:
            if fromlist or "." not in full:
                return self.shim[full]
            return self.shim[full.split(".")[0]]
        return builtins.__import__(full, globals, locals, fromlist, 0)

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        rel = full.split(".")[1:]
        path = os.path.join(REPO, PKG, *rel)
        if os.path.isdir(path):
            path = os.path.join(path, "__init__.py")
            is_pkg = True
        else:
            path += ".py"
            is_pkg = False
        with open(path, encoding="utf-8") as f:
            src = f.read()
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if is_pkg else full.rsplit(".", 1)[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[full] = m
        if len(rel) == 1 and not is_pkg:
            parent = self.load(ALIAS)
            setattr(parent, rel[0], m)
        sys.modules.setdefault(full, m)
        self.files.append(path)
        exec(compile(src, path, "exec"), m.__dict__)
        return m

    def load_all(self):
        ns = types.SimpleNamespace()
        self.load(ALIAS)
        for n in MODS:
            setattr(ns, n, self.load(f"{ALIAS}.{n}"))
        ns.package = self.mods[ALIAS]
        ns.module = lambda n: self.load(f"{ALIAS}.{n}")
        return ns


def _importlib_shim(path):
    """package resources come from REPO"""
    import importlib.resources

    r = types.ModuleType("importlib.resources")
    r.__getattr__ = lambda n: getattr(importlib.resources, n)
    r.files = lambda name: path(os.path.join(REPO, *str(getattr(name, "__name__", name)).replace(ALIAS, PKG).split(".")))
    m = types.ModuleType("importlib")

    def get(n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(importlib, n, None) or importlib.import_module("importlib." + n)

    m.__getattr__ = get
    m.resources = r
    return m, r


def _time_shim():
    import time

    m = types.ModuleType("time")
    m.__getattr__ = lambda n: getattr(time, n)
    m.time = lambda: 0.0
    m.perf_counter = lambda: 0.0
    return m


class _Null:
    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def _sys_shim():
    m = types.ModuleType("sys")
    m.__getattr__ = lambda n: getattr(sys, n)
    m.stdout = _Null()
    m.stderr = _Null()
    return m


def reset_module_state(mods):
    """module level caches of the code under test start fresh on each path"""


class Coverage:
    """records which functions of /repo were executed (sys.monitoring, negligible cost)"""

    def __init__(self):
        self.seen = set()

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(4, "verif")
        except ValueError:
            return
        root = os.path.join(REPO, PKG)

        def on_start(code, off):
            if code.co_filename.startswith(root):
                self.seen.add((os.path.relpath(code.co_filename, REPO), code.co_qualname))
            return mon.DISABLE

        mon.register_callback(4, mon.events.PY_START, on_start)
        mon.set_events(4, mon.events.PY_START)

    def functions(self):
        return sorted(f"{f}:{q}" for f, q in self.seen if not q.startswith("<"))
