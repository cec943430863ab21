"""Small replacement modules."""
import collections as _collections
import types
import unicodedata as _ud
from .. import engine as en
from .. import terms as tm
from .. import ucd
from .. import values as V
from ..engine import Unsupported
from ..values import SymDict, SymStr


# ---- collections
class OrderedDict(SymDict):
    @property
    def __class__(self):
        return OrderedDict

    def move_to_end(self, k, last=True):
        v = self.pop(k)
        if last:
            self[k] = v
        else:
            rest = [(a, b) for a, b in self.items()]
            self.clear()
            self[k] = v
            for a, b in rest:
                self[a] = b

    def popitem(self, last=True):
        if last:
            return SymDict.popitem(self)
        k = next(iter(self))
        return k, self.pop(k)

    def __eq__(self, o):
        if type(o) is OrderedDict:
            if len(self) != len(o):
                return False
            return all(
                bool(V.mkbool(V.key_eq(p[0], q[0]))) and p[1] == q[1]
                for p, q in zip(self._x.items(), o._x.items())
            )
        return SymDict.__eq__(self, o)

    __hash__ = None

    def _sym_repr(self):
        from ..rt import sym_repr
        return V.lift("OrderedDict([") + V.lift(", ").join(
            [sym_repr((k, v)) for k, v in self.items()]) + "])"


class defaultdict(SymDict):
    def __init__(self, default_factory=None, *a, **k):
        self._x = V._Entries()
        self.default_factory = default_factory
        self._fill(a, k)

    @property
    def __class__(self):
        return defaultdict

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        self[k] = v = self.default_factory()
        return v

    def __deepcopy__(self, memo):
        return SymDict.__deepcopy__(self, memo)


class Counter(SymDict):
    def __init__(self, it=None, **k):
        self._x = V._Entries()
        for x in it or ():
            self[x] = self[x] + 1

    @property
    def __class__(self):
        return Counter

    def __missing__(self, k):
        return 0

    def most_common(self, n=None):
        xs = sorted(self.items(), key=lambda kv: -kv[1])
        return xs if n is None else xs[:n]


collections = types.ModuleType("collections")
collections.__dict__.update(
    {k: v for k, v in vars(_collections).items() if not k.startswith("__")}
)
collections.__path__ = _collections.__path__
collections.OrderedDict = OrderedDict
collections.defaultdict = defaultdict
collections.Counter = Counter
collections.abc = _collections.abc


# ---- logging
def _record(msg, *a, **k):
    log = getattr(en.CUR, "log", None)
    if log is not None:
        log.append((msg, a))


_RECORDED = ("warning", "warn", "error", "critical", "exception")


class _Logger:
    level = 0
    handlers = ()

    def __getattr__(self, n):
        if n in _RECORDED:
            return _record
        if n == "log":
            return _log
        if n in ("isEnabledFor", "hasHandlers"):
            return lambda *a: True
        if n == "getEffectiveLevel":
            return lambda: 30
        return lambda *a, **k: None


def _log(level, *a, **k):
    if level >= 30:
        _record(*a, **k)


logging = types.ModuleType("logging")
_L = _Logger()
logging.getLogger = lambda *a: _L
for _n in ("debug", "info", "warning", "error", "critical", "exception", "log",
           "basicConfig", "disable", "warn"):
    setattr(logging, _n, getattr(_L, _n))
logging.Logger = _Logger
for _n, _v in dict(DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50).items():
    setattr(logging, _n, _v)
logging.NullHandler = _Logger


# ---- unicodedata
unicodedata = types.ModuleType("unicodedata")
unicodedata.__dict__.update({k: v for k, v in vars(_ud).items() if not k.startswith("__")})


_NAMES = {}


def _names(n):
    """All names (and aliases) of n characters; n is small."""
    if n not in _NAMES:
        import itertools
        out = []
        if n > 4:  # without aliases
            for k in range(0x110000):
                c = _ud.name(chr(k), "")
                if len(c) == n:
                    out.append((c, chr(k)))
        elif n:
            for t in itertools.product("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -", repeat=n):
                try:
                    out.append(("".join(t), _ud.lookup("".join(t))))
                except KeyError:
                    pass
        _NAMES[n] = out
    return _NAMES[n]


def _symlookup(name):
    cs = name.c
    if all(type(c) is int for c in cs):
        return _ud.lookup("".join(map(chr, cs)))
    if len(cs) > 7:
        raise Unsupported("unicodedata.lookup of a long symbolic name")
    up = [V.in_set(c, [ord(x) for x in "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -"]) for c in cs]
    if not en.CUR.decide(tm.and_(*up)):
        raise Unsupported("unicodedata.lookup of an unusual name")
    if not en.CUR.decide(tm.or_(*[
            V.str_eq_term(cs, tuple(map(ord, n))) for n, c in _names(len(cs))])):
        raise KeyError("undefined character name")
    for n, c in _names(len(cs)):
        if en.CUR.decide(V.str_eq_term(cs, tuple(map(ord, n)))):
            return c
    raise KeyError("undefined character name %r" % "?")


def _lookup(name):
    if V.isinstance(name, SymStr):
        return _symlookup(name)
    return _ud.lookup(name)


unicodedata.lookup = _lookup
unicodedata.normalize = ucd.normalize
unicodedata.is_normalized = ucd.is_normalized
for _n in ("combining", "category", "bidirectional", "east_asian_width", "mirrored",
           "decomposition", "name", "decimal", "digit", "numeric"):
    setattr(unicodedata, _n, ucd.function(_n))


# ---- yaml
class YamlText(SymStr):
    """The YAML text of a structure: safe_load(YamlText(x)) is x."""

    __slots__ = ("val", "pre", "post")

    def __init__(self, val):
        SymStr.__init__(self, None, self._render)
        self.val = val

    def _render(self):
        raise Unsupported("characters of a symbolic YAML text")

    def __len__(self):
        raise Unsupported("length of a symbolic YAML text")

    def __bool__(self):
        return True

    def conc(self, limit=None):
        raise Unsupported("native use of a symbolic YAML text")


yaml = types.ModuleType("yaml")


def _ytree(x):
    """Copy of a structure as YAML gives it back (tuples are not handled)."""
    if V.isinstance(x, (list, tuple)):
        return [_ytree(y) for y in x]
    if V.isinstance(x, (SymDict, dict)):
        d = SymDict()
        for k, v in x.items():
            d[k] = _ytree(v)
        return d
    return x


def _safe_load(s):
    h = getattr(en.CUR, "yaml_hook", None)
    if h is not None:
        return h(s)
    if type(s) is YamlText:
        return _ytree(s.val)
    if V.isinstance(s, SymStr):
        raise Unsupported("yaml.safe_load of a symbolic text")
    import yaml as real
    return _ytree(real.safe_load(s))


def _ydump(x, *a, **k):
    from ..rt import deep_sym
    if deep_sym(x):
        if k.get("sort_keys", True) and V.isinstance(x, SymDict):
            pass  # order of the text does not matter to safe_load
        return YamlText(_ytree(x))
    import yaml as real
    from .json_ import plain
    return real.dump(plain(_ytree(x)), *a, **k)


yaml.safe_load = _safe_load
yaml.load = lambda s, *a, **k: _safe_load(s)
yaml.dump = yaml.safe_dump = _ydump
yaml.SafeLoader = yaml.Loader = yaml.FullLoader = yaml.CSafeLoader = object
yaml.YAMLError = type("YAMLError", (Exception,), {})
