"""Files of a path: names and places are real (in a scratch directory that the
path creates and removes), contents may be symbolic."""
import builtins
import io
import os
import shutil
import tempfile
import types
from . import values as V
from .engine import Unsupported


class _Files:
    def __init__(self):
        self.files = {}
        self.root = None

    def reset(self):
        self.files = {}
        if self.root is not None:
            shutil.rmtree(self.root, ignore_errors=True)
            self.root = None

    def scratch(self):
        if self.root is None:
            self.root = tempfile.mkdtemp(prefix="symx-path-", dir=os.environ.get("SYMX_TMP"))
        return self.root

    def create(self, path, text):
        p = os.path.join(self.scratch(), path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        builtins.open(p, "w").close()
        self.files[p] = text
        return p

    def contents(self, path):
        p = self.place(path)
        if p is None or not os.path.exists(p):
            return None
        if p in self.files:
            return self.files[p]
        with builtins.open(p, "r", encoding="utf-8", newline="") as f:
            return f.read()

    def place(self, path):
        """Absolute name of a path in the scratch directory, else None."""
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return None
        if type(p) is str and self.root is not None and p.startswith(self.root + os.sep):
            return p
        return None

    def open(self, path, mode="r", *a, **k):
        p = self.place(path)
        writes = any(c in mode for c in "wax+")
        if p is None:
            if writes:
                raise Unsupported("write to a real file")
            return builtins.open(path, mode, *a, **k)
        if "b" in mode:
            raise Unsupported("binary file")
        old = self.contents(p)
        builtins.open(p, mode).close()  # errors are those of the real file
        if not writes and p not in self.files:
            return builtins.open(path, mode, *a, **k)
        newline = k.get("newline", a[3] if len(a) > 3 else None)
        return VFile(self, p, mode, old, newline)

    # what is done to files by name
    def moved(self, a, b):
        a, b = self.place(a), self.place(b)
        if b is not None:
            if os.path.isdir(b) and a is not None:
                b = os.path.join(b, os.path.basename(a))
            self.files.pop(b, None)
        if a in self.files and a is not None:
            text = self.files.pop(a)
            if b is not None:
                self.files[b] = text

    def copied(self, text, a, b):
        b = self.place(b)
        if b is not None and text is not None:
            if os.path.isdir(b):
                b = os.path.join(b, os.path.basename(a))
            self.files[b] = text

    def removed(self, a):
        self.files.pop(self.place(a), None)


class VFile:
    def __init__(self, fs, path, mode, old, newline):
        self.fs, self.name, self.mode = fs, path, mode
        self.old = V.lift("") if old is None or "w" in mode else old
        self.parts = [self.old] if "a" in mode and old is not None else []
        self.at_start = "a" not in mode
        self.text = None
        self.universal = newline is None
        self.cut = "w" in mode or "x" in mode or "a" in mode
        self.closed = False
        self.writes = any(c in mode for c in "wax+")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if self.closed:
            return
        self.flush()
        self.closed = True

    def flush(self):
        if not self.writes or not self.parts and not self.cut:
            return
        new = self.parts[0] if len(self.parts) == 1 else V.lift("").join(self.parts)
        if not self.cut:
            new = new + self.old[len(new):]
        self.fs.files[self.name] = new

    def _read(self):
        if self.text is None:
            x = self.fs.files.get(self.name, self.old)
            if self.universal and type(x) in (str, V.SymStr):
                if "\r" in x:
                    x = x.replace("\r\n", "\n").replace("\r", "\n")
            self.text = x
        x, self.text = self.text, V.lift("")
        return x

    def read(self, n=None):
        if n is not None and n >= 0:
            raise Unsupported("read of a part of a file")
        return self._read()

    def readlines(self):
        return self._read().splitlines(True)

    def readline(self):
        x = self._read()
        i = x.find("\n")
        if i < 0:
            return x
        self.text = x[i + 1:]
        return x[:i + 1]

    def __iter__(self):
        return iter(self.readlines())

    def readable(self):
        return True

    def writable(self):
        return self.writes

    def write(self, s):
        if not self.writes:
            raise io.UnsupportedOperation("not writable")
        self.parts.append(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def seek(self, n, *a):
        if n != 0 or a:
            raise Unsupported("seek")
        self.flush()
        self.old, self.parts, self.text = self.fs.files.get(self.name, self.old), [], None

    def truncate(self, *a):
        if a and a[0] != 0:
            raise Unsupported("truncate")
        if not self.parts and (a or self.text is None):
            self.old = V.lift("")
        elif not a:
            self.old = V.lift("")
        else:
            raise Unsupported("truncate")
        self.cut = True


FILES = _Files()


class _Proxy(types.ModuleType):
    def __init__(self, mod, **over):
        self.__dict__.update(_mod=mod, __name__=mod.__name__, **over)

    def __getattr__(self, k):
        return getattr(self.__dict__["_mod"], k)


def _moves(f):
    def call(src, dst, *a, **k):
        r = f(src, dst, *a, **k)
        FILES.moved(src, dst)
        return r
    return call


def _copies(f):
    def call(src, dst, *a, **k):
        text = FILES.contents(src)
        r = f(src, dst, *a, **k)
        FILES.copied(text, src, dst)
        return r
    return call


def _removes(f):
    def call(path, *a, **k):
        r = f(path, *a, **k)
        FILES.removed(path)
        return r
    return call


os_ = _Proxy(os, replace=_moves(os.replace), rename=_moves(os.rename),
             remove=_removes(os.remove), unlink=_removes(os.unlink))
shutil_ = _Proxy(shutil, move=_moves(shutil.move), copy=_copies(shutil.copy),
                 copyfile=_copies(shutil.copyfile))
io_ = _Proxy(io, open=FILES.open)


def patch_pathlib():
    import pathlib
    P = pathlib.Path
    _open, _rt, _wt = P.open, P.read_text, P.write_text
    _mv = {n: getattr(P, n) for n in ("replace", "rename")}

    def open_(self, mode="r", *a, **k):
        if FILES.place(self) is None:
            return _open(self, mode, *a, **k)
        return FILES.open(self, mode, *a, **k)

    def read_text(self, *a, **k):
        if FILES.place(self) is None:
            return _rt(self, *a, **k)
        with FILES.open(self, "r") as f:
            return f.read()

    def write_text(self, data, *a, **k):
        if FILES.place(self) is None:
            raise Unsupported("write to a real file")
        with FILES.open(self, "w") as f:
            f.write(data)

    def mover(f):
        def move(self, target):
            r = f(self, target)
            FILES.moved(self, target)
            return r
        return move

    P.open, P.read_text, P.write_text = open_, read_text, write_text
    P.replace, P.rename = mover(_mv["replace"]), mover(_mv["rename"])
