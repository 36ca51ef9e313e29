"""pathlib stand-in: files live in the engine's virtual file system, nothing is created on disk"""
import io
import os
import pathlib as _pl
import types

from . import core


def _fs():
    e = core.ENGINE
    return e.fs if e is not None else {}


def key(p):
    """name of a file in the virtual file system"""
    p = str(p)
    c = getattr(core.ENGINE, "cwd", None)
    return p if c is None or p.startswith("/") else os.path.normpath(os.path.join(c, p))


class Path(_pl.PosixPath):
    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        e = core.ENGINE
        if e is not None:
            if not hasattr(e, "dirs"):
                e.dirs = set()
            e.dirs.add(key(self))

    def is_file(self):
        return key(self) in _fs() or super().is_file()

    def is_dir(self):
        e = core.ENGINE
        return key(self) in getattr(e, "dirs", ()) or any(k.startswith(key(self) + "/") for k in _fs()) or super().is_dir()

    def exists(self, **k):
        return self.is_file() or self.is_dir()

    def open(self, mode="r", *a, **k):
        from .shims import _open

        return _open(self, mode, *a, **k)

    def read_text(self, *a, **k):
        with self.open() as f:
            return f.read()

    def write_text(self, data, *a, **k):
        with self.open("w") as f:
            return f.write(data)

    def unlink(self, missing_ok=False):
        if key(self) in _fs():
            del _fs()[key(self)]
        elif not missing_ok:
            raise FileNotFoundError(str(self))

    def touch(self, *a, **k):
        if key(self) not in _fs():
            _fs()[key(self)] = ""

    def rename(self, target):
        _fs()[key(target)] = _fs().pop(key(self))
        return Path(target)

    replace = rename

    @classmethod
    def cwd(cls):
        e = core.ENGINE
        c = getattr(e, "cwd", None)
        return cls(c) if c else cls(str(_pl.Path.cwd()))

    def resolve(self, strict=False):
        return self if self.is_absolute() else Path.cwd() / self

    absolute = resolve

    def glob(self, pattern, **k):
        import fnmatch

        root = str(self.resolve())
        for n in sorted(_fs()):
            p = Path(n)
            if str(p.parent) == root and fnmatch.fnmatch(p.name, pattern):
                yield p

    def iterdir(self):
        yield from self.glob("*")


def module():
    m = types.ModuleType("pathlib")
    m.__getattr__ = lambda n: getattr(_pl, n)
    m.Path = m.PosixPath = Path
    return m


def os_module():
    import os
    import posixpath

    o = types.ModuleType("os")
    o.__getattr__ = lambda n: getattr(os, n)
    o.makedirs = lambda name, mode=0o777, exist_ok=False: Path(name).mkdir(parents=True, exist_ok=exist_ok)
    o.mkdir = lambda name, mode=0o777: Path(name).mkdir()
    o.remove = o.unlink = lambda p: Path(p).unlink()
    o.rename = o.replace = lambda a, b: Path(a).rename(b)
    o.getcwd = lambda: str(Path.cwd())
    o.listdir = lambda p=".": [x.name for x in Path(p).iterdir()]
    pm = types.ModuleType("os.path")
    pm.__getattr__ = lambda n: getattr(posixpath, n)
    pm.exists = lambda p: Path(p).exists()
    pm.isfile = lambda p: Path(p).is_file()
    pm.isdir = lambda p: Path(p).is_dir()
    pm.abspath = lambda p: str(Path(p).resolve())
    o.path = pm
    return o
