"""The interface harness bodies use, in two versions: SymW inside the symbolic
executor, ConcreteW (plain Python, also runs on PyPy) for replay."""


class Skip(Exception):
    """Concrete replay: the inputs do not satisfy an assumption."""


class ConcreteW:
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.fails = []
        self.obs = []
        self.covers = []

    # ---- inputs
    def choose(self, name, options):
        if isinstance(options, int):
            options = range(options)
        i = self.inputs.get(name, 0)
        return options[i]

    def flag(self, name):
        return bool(self.inputs.get(name, 0))

    def char(self, name, alphabet=None):
        return self.string(name, 1, alphabet)

    def string(self, name, n, alphabet=None):
        v = self.inputs.get(name)
        if v is None:
            v = (min(alphabet) if alphabet else "\0") * n
        return v

    def int(self, name, lo, hi):
        return self.inputs.get(name, lo)

    def subset(self, name, universe):
        v = self.inputs.get(name, [])
        return set(x for x in universe if x in v)

    def relation(self, name, rows, cols, fixed=None):
        """A symbolic relation between rows and columns: dict row -> set of
        columns and its converse.  `fixed` maps a row to its columns."""
        fixed = fixed or {}
        pairs = [tuple(p) for p in self.inputs.get(name, [])]
        fwd = {r: set(c for c in cols if (r, c) in pairs) | set(fixed.get(r, ()))
               for r in rows}
        bwd = {}
        for r in rows:
            for c in fwd[r]:
                bwd.setdefault(c, set()).add(r)
        for c in cols:
            bwd.setdefault(c, set())
        return fwd, bwd

    # ---- formulas
    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, msg=""):
        if not c:
            self.fails.append(msg)

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def eq(self, a, b):
        return a == b

    def isin(self, x, c):
        return x in c

    def observe(self, x):
        self.obs.append(norm(x))

    def cover(self, label):
        self.covers.append(label)

    def run(self, f, *a, **k):
        try:
            return ("ok", f(*a, **k))
        except Skip:
            raise
        except RecursionError:
            raise
        except Exception as e:
            return ("exc", type(e).__name__)

    def virtual_file(self, path, text):
        """Write a file in the scratch directory; returns its path."""
        import os
        p = os.path.join(self.scratch(), path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        return p

    def logged(self):
        """Messages of level warning and above since the last call (the first
        call starts recording)."""
        import logging
        if not hasattr(self, "_log"):
            self._log = log = []

            class Handler(logging.Handler):
                def emit(self, record):
                    if record.levelno >= logging.WARNING:
                        try:
                            log.append(record.getMessage())
                        except Exception:
                            log.append(None)

            self._handler = Handler()
            self._disabled = logging.root.manager.disable
            logging.disable(logging.NOTSET)
            logging.getLogger().addHandler(self._handler)
        out = list(self._log)
        del self._log[:]
        return out

    def read_file(self, path):
        """Contents of a file, None if there is none."""
        import os
        if not os.path.exists(path):
            return None
        with open(path, "r", encoding="utf-8", newline="") as f:
            return f.read()

    def on_yaml(self, f):
        """Have texts given to the YAML library handled by f."""
        import yaml
        if not hasattr(self, "_yaml"):
            self._yaml = (yaml.safe_load, yaml.load)
        if f is None:
            yaml.safe_load, yaml.load = self._yaml
            return
        yaml.safe_load = f
        yaml.load = lambda s, *a, **k: f(s)

    def set_order(self, f):
        """Sets made by name in the package iterate in the order f gives."""
        import sys
        for n, m in list(sys.modules.items()):
            if n.split(".")[0] == "graphtransliterator":
                if f is None:
                    m.__dict__.pop("set", None)
                else:
                    m.set = _ordered_set(f)
        self._sets = f is not None

    def cli(self, args):
        """Run the real command line."""
        from click.testing import CliRunner
        from graphtransliterator import cli
        r = CliRunner().invoke(cli.main, list(args))
        if r.exception is not None and not (
                isinstance(r.exception, SystemExit) and r.exit_code == 0):
            if isinstance(r.exception, RecursionError):
                raise r.exception
            return ("exc", type(r.exception).__name__)
        return ("ok", r.stdout_bytes.decode("utf-8"))

    def prints(self, printed, value):
        return printed == (value if isinstance(value, str) else str(value)) + "\n"

    def printed_json(self, printed):
        import json
        return json.loads(printed)

    def printed_text(self, printed):
        return printed[:-1]

    def scratch(self):
        import os
        import tempfile
        if not hasattr(self, "_scratch"):
            self._scratch = tempfile.mkdtemp(prefix="symx-replay-", dir=os.environ.get("SYMX_TMP"))
        return self._scratch

    def close(self):
        if hasattr(self, "_handler"):
            import logging
            logging.getLogger().removeHandler(self._handler)
            logging.disable(self._disabled)
        if getattr(self, "_sets", False):
            self.set_order(None)
        if hasattr(self, "_yaml"):
            import yaml
            yaml.safe_load, yaml.load = self._yaml
        if hasattr(self, "_scratch"):
            import shutil
            shutil.rmtree(self._scratch, ignore_errors=True)


def _ordered_set(f):
    class OrderedSet(set):
        def __iter__(self):
            return iter(f(list(set.__iter__(self))))

        def union(self, *xs):
            return OrderedSet(set.union(self, *xs))

        def intersection(self, *xs):
            return OrderedSet(set.intersection(self, *xs))

        def difference(self, *xs):
            return OrderedSet(set.difference(self, *xs))

        def copy(self):
            return OrderedSet(self)

        def __or__(self, x):
            return self.union(x)

        def __deepcopy__(self, memo):
            return OrderedSet(self)

    return OrderedSet


def norm(x):
    """JSON-able form of an observed value."""
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return {"d": [[norm(k), norm(v)] for k, v in x.items()]}
    if isinstance(x, (set, frozenset)):
        return {"s": sorted([norm(y) for y in x], key=str)}
    return {"o": type(x).__name__}
