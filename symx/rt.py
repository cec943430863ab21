"""Run-time support for instrumented code: helpers and replacement builtins."""
import builtins
import collections.abc
import string as _string
from . import engine as en
from . import terms as tm
from . import values as V
from .engine import Unsupported
from .terms import T
from .values import (GuardedSet, LazyStr, SymBool, SymDict, SymFrozenSet, SymInt,
                     SymSet, SymStr, mkbool, mkstr)

collections.abc.MutableMapping.register(SymDict)
collections.abc.MutableSet.register(SymSet)
collections.abc.MutableSet.register(GuardedSet)

_type = builtins.type
_isinstance = V.isinstance  # on the real type


# ------------------------------------------------------------------ proxies
class TypeProxy:
    """Stands for a builtin type in instrumented code."""

    def __init__(self, real, sym, call, methods=None):
        self._real, self._sym, self._call = real, sym, call
        self.__name__ = real.__name__
        self.__qualname__ = real.__qualname__
        self.__module__ = "builtins"

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __mro_entries__(self, bases):
        return (self._real,)

    def __instancecheck__(self, x):
        return builtins.isinstance(x, self._real)

    def __subclasscheck__(self, c):
        return builtins.issubclass(c, self._real)

    def __or__(self, o):
        return self._real

    __ror__ = __or__

    def __getattr__(self, n):
        f = getattr(self._real, n)
        if not callable(f):
            return f

        def m(*a, **k):
            if a and _isinstance(a[0], (self._sym,)):
                return getattr(a[0], n)(*a[1:], **k)
            if a and self._real is str and any_sym(a) and hasattr(SymStr, n):
                return getattr(V.lift(a[0]), n)(*a[1:], **k)
            return f(*a, **k)

        return m

    def __eq__(self, o):
        return o is self or o is self._real

    def __hash__(self):
        return hash(self._real)

    def __repr__(self):
        return repr(self._real)

    def __reduce__(self):
        return self._real.__name__


def any_sym(xs):
    """A symbolic value occurs in xs (searching containers)."""
    for x in xs:
        if deep_sym(x):
            return True
    return False


def deep_sym(x):
    t = _type(x)
    if t in (str, int, float, bool, bytes) or x is None:
        return False
    if t in (SymStr, LazyStr, SymInt, SymBool, GuardedSet):
        return True
    if _isinstance(x, (list, tuple)):
        return any(deep_sym(y) for y in x)
    if _isinstance(x, SymDict):
        return any(deep_sym(kv[0]) or deep_sym(kv[1]) for kv in x._x.e.values())
    if _isinstance(x, SymSet):
        return any(deep_sym(kv[0]) for kv in x._x.e.values())
    if _isinstance(x, dict):
        return any(deep_sym(k) or deep_sym(v) for k, v in x.items())
    if hasattr(t, "__sym_text__"):
        return True
    return False


def has_symcontainer(x):
    """A replacement container (even without symbolic content) occurs in x."""
    if _isinstance(x, (SymDict, SymSet, GuardedSet)):
        return True
    if _isinstance(x, (list, tuple)):
        return any(has_symcontainer(y) for y in x)
    return False


# ------------------------------------------------------------------ str()
def sym_str(*a, **k):
    if not a:
        return ""
    x = a[0]
    if len(a) > 1 or k:
        return str(*a, **k)
    t = _type(x)
    if t is str:
        return x
    if _isinstance(x, SymStr):
        return x
    if t is SymBool:
        return "True" if x else "False"
    if t is SymInt:
        return int_to_str(x)
    if hasattr(t, "__sym_text__"):
        return x.__sym_text__()
    if builtins.isinstance(x, BaseException):
        if _type(x).__str__ in (BaseException.__str__, Exception.__str__):
            if len(x.args) == 1 and deep_sym(x.args[0]):
                return sym_str(x.args[0])
        if _type(x) is KeyError and deep_sym(x.args):
            return sym_repr(x.args[0])
        return str(x)
    if _isinstance(x, (list, tuple, SymDict, SymSet, GuardedSet, dict)):
        return sym_repr(x)
    return str(x)


def int_to_str(x):
    neg = bool(x < 0)
    y = -x if neg else x
    if bool(y < 10):
        s = mkstr((tm.add(48, y.t),)) if _type(y) is SymInt else str(y)
        return ("-" + s) if neg else s
    return str(x.conc())


def sym_repr(x):
    t = _type(x)
    if _isinstance(x, SymStr):
        return _repr_str(x)
    if t is SymBool:
        return "True" if x else "False"
    if t is SymInt:
        return int_to_str(x)
    if not deep_sym(x) and not has_symcontainer(x):
        return repr(x)
    if t is list:
        return "[" + _join([sym_repr(y) for y in x]) + "]"
    if t is tuple:
        if len(x) == 1:
            return "(" + sym_repr(x[0]) + ",)"
        return "(" + _join([sym_repr(y) for y in x]) + ")"
    if _isinstance(x, tuple) and hasattr(x, "_fields"):
        return t.__name__ + "(" + _join(
            [n + "=" + sym_repr(y) for n, y in zip(x._fields, x)]) + ")"
    if _isinstance(x, SymDict):
        if hasattr(x, "_sym_repr"):
            return x._sym_repr()
        return "{" + _join([sym_repr(k) + ": " + sym_repr(v) for k, v in x.items()]) + "}"
    if _isinstance(x, dict):
        return "{" + _join([sym_repr(k) + ": " + sym_repr(v) for k, v in x.items()]) + "}"
    if t is SymSet or t is GuardedSet:
        xs = [sym_repr(y) for y in x]
        return "{" + _join(xs) + "}" if xs else "set()"
    if t is SymFrozenSet:
        xs = [sym_repr(y) for y in x]
        return "frozenset({" + _join(xs) + "})" if xs else "frozenset()"
    raise Unsupported("repr of %s" % t.__name__)


def _join(xs):
    return V.lift(", ").join(xs)


def _repr_str(x):
    out = []
    quote = "'"
    has1 = V.lift(x)._contains((39,))
    if en.CUR.decide(has1) and not en.CUR.decide(V.lift(x)._contains((34,))):
        quote = '"'
    for c in x.c:
        if _type(c) is not T:
            s = chr(c)
            r = repr(s + ("'" if quote == '"' else ""))
            r = r[1:-1]
            if quote == '"':
                r = r[:-1]
            elif s == "'":
                r = "\\'"
            elif s == '"':
                r = '"'
            out.extend(map(ord, r))
            continue
        simple = tm.and_(tm.between(32, c, 126), tm.not_(tm.eq(c, 92)), tm.not_(tm.eq(c, 39)))
        if en.CUR.decide(simple):
            out.append(c)
        elif en.CUR.decide(tm.eq(c, 39)):
            out.extend(map(ord, "'" if quote == '"' else "\\'"))
        elif en.CUR.decide(tm.eq(c, 92)):
            out.extend((92, 92))
        else:
            v = en.CUR.concretize_int(c, 12)
            out.extend(map(ord, repr(chr(v))[1:-1]))
    return mkstr([ord(quote)] + out + [ord(quote)])


# ------------------------------------------------------------------ formatting
def _conv(x, conv, spec):
    if conv == "r":
        x = sym_repr(x)
    elif conv == "s":
        x = sym_str(x)
    elif conv == "a":
        x = ascii(x)
    if spec:
        if _type(x) in (SymInt, SymBool) or _isinstance(x, SymStr):
            raise Unsupported("format specification on a symbolic value")
        return format(x, spec)
    return sym_str(x)


def _compound(xs):
    return any(deep_sym(x) and not _isinstance(x, SymStr) for x in xs) or any(
        _isinstance(x, LazyStr) and x._c is None for x in xs
    )


def _sym_scan(xs):
    for x in xs:
        if deep_sym(x) or has_symcontainer(x):
            return True
    return False


def sym_fstr(*parts):
    """f-string: parts are str or (value, conversion, spec)."""
    vals = [p[0] for p in parts if _type(p) is tuple]

    def build():
        out = []
        for p in parts:
            s = p if _type(p) is str else _conv(*p)
            c = V.chars(s)
            out.extend(c)
        return mkstr(out)

    if not _sym_scan(vals):
        return build()
    if _compound(vals):
        return V.lazystr(build)
    return build()


def sym_mod(a, b):
    if not (_isinstance(a, (str, SymStr))):
        return a % b
    args = tuple(b) if _type(b) is tuple else (b,)
    if _type(a) is str and not _sym_scan(args):
        return a % b

    def build():
        if _type(a) is not str:
            raise Unsupported("%-formatting with a symbolic format")
        out, i, k = [], 0, 0
        while i < len(a):
            if a[i] != "%":
                out.append(a[i])
                i += 1
                continue
            c = a[i + 1]
            if c == "%":
                out.append("%")
            elif c in "sdri":
                if k >= len(args):
                    raise TypeError("not enough arguments for format string")
                out.append(sym_repr(args[k]) if c == "r" else sym_str(args[k]))
                k += 1
            else:
                raise Unsupported("format %" + c)
            i += 2
        if k != len(args):
            raise TypeError("not all arguments converted during string formatting")
        return V.lift("").join(out)

    if _compound(args):
        return V.lazystr(build)
    return build()


def sym_format(fmt, a, k):
    vals = list(a) + list(k.values())
    if _type(fmt) is str and not _sym_scan(vals):
        return fmt.format(*a, **k) if _type(k) is dict else fmt.format_map(k)

    def build():
        if _type(fmt) is not str:
            raise Unsupported("format() with a symbolic format")
        out, auto = [], 0
        for lit, field, spec, conv in _string.Formatter().parse(fmt):
            out.append(lit)
            if field is None:
                continue
            if field == "":
                v = a[auto]
                auto += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field.isidentifier():
                v = k[field]
            else:
                first, rest = _string._string.formatter_field_name_split(field)
                v = a[first] if builtins.isinstance(first, int) else k[first]
                for is_attr, n in rest:
                    v = getattr(v, n) if is_attr else v[n]
            out.append(_conv(v, conv, spec))
        return V.lift("").join(out)

    if _compound(vals):
        return V.lazystr(build)
    return build()


# ------------------------------------------------------------------ helpers
def sym_in(x, c):
    t = _type(c)
    if _isinstance(c, SymStr) or t is str:
        b = V.chars(x)
        if b is None:
            raise TypeError("'in <string>' requires string as left operand, not %s" % _type(x).__name__)
        if t is str and _type(x) is str:
            return x in c
        return mkbool(V.lift(c)._contains(b))
    if t is GuardedSet:
        return c.has(x)
    if V.is_sym(x):
        if _isinstance(c, (dict, set, frozenset)):
            return mkbool(tm.or_(*[V.key_eq(k, x) for k in c]))
        if t is SymDict or _isinstance(c, SymSet):
            V.hashable(x)
            return mkbool(tm.or_(*[V.key_eq(kv[0], x) for kv in c._x.e.values()]))
        if t in (list, tuple):
            return mkbool(tm.or_(*[V.key_eq(k, x) for k in c]))
    elif t in (list, tuple):
        if any(V.is_sym(k) for k in c):
            return mkbool(tm.or_(*[V.key_eq(k, x) for k in c]))
    elif (t is SymDict or t is SymSet) and c._x.sy and _type(x) in _PLAIN:
        if x in c._x.ix:
            return True
        return mkbool(tm.or_(*[V.key_eq(c._x.e[s][0], x) for s in c._x.sy]))
    return x in c


def sym_notin(x, c):
    r = sym_in(x, c)
    if _type(r) is SymBool:
        return mkbool(tm.not_(r.t))
    return not r


def sym_not(x):
    if _type(x) is SymBool:
        return mkbool(tm.not_(x.t))
    return not x


def sym_dict(pairs):
    d = SymDict()
    for k, v in pairs:
        if k is _STAR:
            d.update(v)
        else:
            d[k] = v
    return d


class _Star:
    pass


_STAR = _Star()

STR_METHODS = {
    n for n in dir(str) if not n.startswith("_")
} - {"isidentifier"}
METHODS = STR_METHODS | {"get", "pop", "setdefault", "update", "add", "discard",
                         "remove", "union", "intersection", "difference",
                         "issubset", "issuperset", "isdisjoint"}


def sym_meth(recv, name, *a, **k):
    t = _type(recv)
    if t is str:
        if name in STR_METHODS and (_sym_scan(a) or _sym_scan(k.values())
                                    or (a and _type(a[0]) not in _PLAIN)):
            if name == "format":
                return sym_format(recv, a, k)
            if name == "format_map":
                return sym_format(recv, (), a[0])
            if name == "join":
                a = (list(a[0]),)
                if not _sym_scan(a):
                    return recv.join(a[0])
            if not _sym_scan(a) and not _sym_scan(k.values()):
                return getattr(recv, name)(*a, **k)
            if hasattr(SymStr, name):
                return getattr(V.lift(recv), name)(*a, **k)
            raise Unsupported("str.%s with symbolic arguments" % name)
        return getattr(recv, name)(*a, **k)
    if t in (dict, set, frozenset) and (_sym_scan(a)):
        if t is dict:
            if name in ("get", "pop"):
                for x in recv:
                    if en.CUR.decide(V.key_eq(x, a[0])):
                        return getattr(recv, name)(x)
                if name == "get":
                    return a[1] if len(a) > 1 else k.get("default")
                if len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
            if name in ("setdefault",):
                for x in recv:
                    if en.CUR.decide(V.key_eq(x, a[0])):
                        return recv[x]
                return recv.setdefault(*a)
        else:
            s = SymSet(recv) if t is set else SymFrozenSet(recv)
            if name not in ("add", "update", "discard", "remove", "pop"):
                return getattr(s, name)(*a, **k)
    return getattr(recv, name)(*a, **k)


_PLAIN = {str, int, float, bool, type(None), bytes}


# ------------------------------------------------------------------ builtins
def sym_type(*a, **k):
    if len(a) == 1:
        t = _type(a[0])
        if t in _CANON:
            return _CANON[t]
        return t
    n, b, d = a
    return _type(n, tuple(b), dict(d) if _isinstance(d, dict) else {x: d[x] for x in d}, **k)


def _classes(c):
    if builtins.isinstance(c, tuple):
        out = ()
        for x in c:
            out += _classes(x)
        return out
    if _type(c) is TypeProxy:
        return (c._real,)
    if c is SymDict:
        return (dict, SymDict)
    if c is SymSet:
        return (set, GuardedSet)
    if c is SymFrozenSet:
        return (frozenset,)
    return (c,)


def sym_isinstance(x, c):
    t = _type(x)
    if c is SymDict or (t is SymDict):
        pass
    cs = _classes(c)
    if _isinstance(x, SymSet):
        # a SymFrozenSet is not a set
        want = frozenset if t is SymFrozenSet else set
        return any(
            cc is want or cc is t or (cc not in (set, frozenset) and builtins.isinstance(x, cc))
            for cc in cs
        )
    return builtins.isinstance(x, cs)


def sym_issubclass(a, b):
    if _type(a) is TypeProxy:
        a = a._real
    return builtins.issubclass(a, _classes(b))


def sym_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if _type(x) is SymInt:
            return x
        if _isinstance(x, SymStr):
            return _parse_int(x)
    return int(*a, **k)


_DIGITS = None


def _parse_int(s):
    cs = list(s.c)
    if not cs:
        raise ValueError("invalid literal for int() with base 10: ''")
    val = 0
    for i, c in enumerate(cs):
        if _type(c) is not T:
            if 48 <= c <= 57:
                d = c - 48
            elif chr(c) in "+-_" or chr(c).isspace() or chr(c).isdigit():
                raise Unsupported("int() of an unusual symbolic string")
            else:
                raise ValueError("invalid literal for int() with base 10")
        elif en.CUR.decide(tm.between(48, c, 57)):
            d = tm.add(c, -48)
        elif en.CUR.decide(tm.or_(tm.le(128, c), V.in_set(c, [43, 45, 95] + V.WS))):
            raise Unsupported("int() of an unusual symbolic string")
        else:
            raise ValueError("invalid literal for int() with base 10")
        val = tm.add(tm.mul(10, val), d)
    return V.mkint(val)


def sym_bool(x=False):
    if _type(x) is SymBool:
        return x
    return bool(x)


def sym_ord(x):
    if _isinstance(x, SymStr):
        if len(x.c) != 1:
            raise TypeError("ord() expected a character")
        return V.mkint(x.c[0])
    return ord(x)


def sym_chr(x):
    if _type(x) is SymInt:
        return mkstr((x.t,))
    return chr(x)


def sym_hash(x):
    return hash(x)


def sym_dictcall(*a, **k):
    return SymDict(*a, **k)


def sym_repr_builtin(x):
    if deep_sym(x) or has_symcontainer(x):
        return V.lazystr(lambda: sym_repr(x))
    return repr(x)


def sym_print(*a, **k):
    return None


from .files import FILES  # noqa: E402


def make_builtins(importer):
    d = dict(vars(builtins))
    strp = TypeProxy(str, SymStr, sym_str)
    intp = TypeProxy(int, SymInt, sym_int)
    boolp = TypeProxy(bool, SymBool, sym_bool)
    typep = TypeProxy(_type, (), sym_type)
    typep._sym = _type  # type.mro(x) and the like
    _CANON.update({
        str: strp, SymStr: strp, LazyStr: strp, int: intp, SymInt: intp,
        bool: boolp, SymBool: boolp, dict: SymDict, set: SymSet,
        GuardedSet: SymSet, frozenset: SymFrozenSet, _type: typep,
    })
    d.update(
        str=strp, int=intp, bool=boolp, type=typep, dict=SymDict, set=SymSet,
        frozenset=SymFrozenSet, isinstance=sym_isinstance,
        issubclass=sym_issubclass, ord=sym_ord, chr=sym_chr,
        repr=sym_repr_builtin, print=sym_print, open=FILES.open,
        __import__=importer,
    )
    return d


_CANON = {}
