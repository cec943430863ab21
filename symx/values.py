"""Symbolic values."""
import builtins
import operator
from . import engine as en
from . import terms as tm
from .engine import Unsupported
from .terms import T

SURR = (0xD800, 0xDFFF)


def E():
    return en.CUR


# ------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return en.CUR.decide(self.t)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if is_boolish(o):
            return mkbool(tm.and_(self.t, bterm(o)))
        return bool(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if is_boolish(o):
            return mkbool(tm.or_(self.t, bterm(o)))
        return bool(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        if is_boolish(o):
            return mkbool(tm.not_(tm.iff(self.t, bterm(o))))
        return bool(self) ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return ~int(self)

    def __eq__(self, o):
        if is_boolish(o):
            return mkbool(tm.iff(self.t, bterm(o)))
        return bool(self) == o

    def __ne__(self, o):
        return mkbool(tm.not_(bterm(self == o)))

    def __repr__(self):
        return "<symbool>"

    def __str__(self):
        return str(bool(self))

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __deepcopy__(self, memo):
        return self


def mkbool(t):
    if type(t) is T:
        return SymBool(t)
    return bool(t)


def is_boolish(x):
    return type(x) is bool or type(x) is SymBool


def bterm(x):
    if type(x) is SymBool:
        return x.t
    if type(x) is T:
        return x
    if x is NotImplemented:
        return False
    return bool(x)


# ------------------------------------------------------------------ integers
class SymInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    def conc(self):
        return en.CUR.concretize_int(self.t)

    __int__ = __index__ = conc

    def __bool__(self):
        return en.CUR.decide(tm.not_(tm.eq(self.t, 0)))

    def __hash__(self):
        return hash(self.conc())

    def __eq__(self, o):
        b = iterm(o)
        return NotImplemented if b is None else mkbool(tm.eq(self.t, b))

    def __ne__(self, o):
        b = iterm(o)
        return NotImplemented if b is None else mkbool(tm.not_(tm.eq(self.t, b)))

    def __lt__(self, o):
        b = iterm(o)
        return NotImplemented if b is None else mkbool(tm.lt(self.t, b))

    def __le__(self, o):
        b = iterm(o)
        return NotImplemented if b is None else mkbool(tm.le(self.t, b))

    def __gt__(self, o):
        b = iterm(o)
        return NotImplemented if b is None else mkbool(tm.lt(b, self.t))

    def __ge__(self, o):
        b = iterm(o)
        return NotImplemented if b is None else mkbool(tm.le(b, self.t))

    def __add__(self, o):
        b = iterm(o)
        return NotImplemented if b is None else mkint(tm.add(self.t, b))

    __radd__ = __add__

    def __sub__(self, o):
        b = iterm(o)
        return NotImplemented if b is None else mkint(tm.add(self.t, tm.neg(b)))

    def __rsub__(self, o):
        b = iterm(o)
        return NotImplemented if b is None else mkint(tm.add(b, tm.neg(self.t)))

    def __neg__(self):
        return mkint(tm.neg(self.t))

    def __mul__(self, o):
        if type(o) is int:
            return mkint(tm.mul(o, self.t))
        return self.conc() * o

    __rmul__ = __mul__

    def __str__(self):
        return str(self.conc())

    def __repr__(self):
        return "<symint>"

    def __format__(self, s):
        return format(self.conc(), s)

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, n):
        return getattr(self.conc(), n)


for _n in ("floordiv", "rfloordiv", "mod", "rmod", "truediv", "rtruediv", "pow",
           "lshift", "rshift", "and", "or", "xor"):
    def _f(self, o, _n="__%s__" % _n):
        return getattr(self.conc(), _n)(o)
    setattr(SymInt, "__%s__" % _n, _f)


def iterm(o):
    if type(o) is SymInt:
        return o.t
    if type(o) in (int, bool):
        return int(o)
    if type(o) is SymBool:
        return int(o)
    return None


def mkint(t):
    return SymInt(t) if type(t) is T else t


# ------------------------------------------------------------------ strings
WS = [9, 10, 11, 12, 13, 0x1C, 0x1D, 0x1E, 0x1F, 0x20, 0x85, 0xA0, 0x1680] + list(
    range(0x2000, 0x200B)
) + [0x2028, 0x2029, 0x202F, 0x205F, 0x3000]


def in_set(c, codes):
    """Term: code point c is one of `codes`."""
    if type(c) is not T:
        return c in codes
    codes = sorted(codes)
    out, i = [], 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        if i == j:
            out.append(tm.eq(c, codes[i]))
        else:
            out.append(tm.between(codes[i], c, codes[j]))
        i = j + 1
    return tm.or_(*out)


def mkstr(cs):
    cs = tuple(cs)
    for c in cs:
        if type(c) is T:
            return SymStr(cs)
    return "".join(map(chr, cs))


def chars(x):
    """Tuple of code points/terms of a str-like value, None if it is not one."""
    if type(x) is str:
        return tuple(map(ord, x))
    if isinstance(x, SymStr):
        return x.c
    if builtins.isinstance(x, str):
        return tuple(map(ord, str(x)))
    return None


def _ucd():
    from . import ucd
    return ucd


def str_eq_term(a, b):
    if len(a) != len(b):
        return False
    return tm.and_(*[tm.eq(x, y) for x, y in zip(a, b)])


def str_lt_term(a, b, or_equal=False):
    # lexicographic by code point
    out = or_equal if len(a) == len(b) else len(a) < len(b)
    n = min(len(a), len(b))
    for i in range(n - 1, -1, -1):
        out = tm.or_(tm.lt(a[i], b[i]), tm.and_(tm.eq(a[i], b[i]), out))
    return out


class _SymStrMeta(type):
    pass


class SymStr:
    """String of known length whose characters may be solver variables."""

    __slots__ = ("_c", "_thunk")

    def __init__(self, cs, thunk=None):
        self._c = cs
        self._thunk = thunk

    @property
    def c(self):
        if self._c is None:
            v = self._thunk()
            self._c = chars(v)
            self._thunk = None
        return self._c

    @property
    def __class__(self):
        return str

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        for x in self.c:
            yield mkstr((x,))

    def __getitem__(self, i):
        if builtins.isinstance(i, slice):
            return mkstr(self.c[i])
        return mkstr((self.c[i],))

    def __add__(self, o):
        b = chars(o)
        return NotImplemented if b is None else mkstr(self.c + b)

    def __radd__(self, o):
        b = chars(o)
        return NotImplemented if b is None else mkstr(b + self.c)

    def __mul__(self, n):
        return mkstr(self.c * operator.index(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        if o is self:
            return True
        b = chars(o)
        if b is None:
            return NotImplemented
        return mkbool(str_eq_term(self.c, b))

    def __ne__(self, o):
        b = chars(o)
        if b is None:
            return NotImplemented
        return mkbool(tm.not_(str_eq_term(self.c, b)))

    def __lt__(self, o):
        b = chars(o)
        return NotImplemented if b is None else mkbool(str_lt_term(self.c, b))

    def __le__(self, o):
        b = chars(o)
        return NotImplemented if b is None else mkbool(str_lt_term(self.c, b, True))

    def __gt__(self, o):
        b = chars(o)
        return NotImplemented if b is None else mkbool(str_lt_term(b, self.c))

    def __ge__(self, o):
        b = chars(o)
        return NotImplemented if b is None else mkbool(str_lt_term(b, self.c, True))

    def conc(self, limit=40):
        out = []
        for x in self.c:
            out.append(x if type(x) is not T else en.CUR.concretize_int(x, limit))
        return "".join(map(chr, out))

    def __hash__(self):
        return hash(self.conc())

    def __contains__(self, o):
        b = chars(o)
        if b is None:
            raise TypeError("'in <string>' requires string as left operand")
        return bool(mkbool(self._contains(b)))

    def _contains(self, b):
        n = len(b)
        return tm.or_(
            *[str_eq_term(self.c[i:i + n], b) for i in range(len(self.c) - n + 1)]
        )

    def __str__(self):
        raise Unsupported("native str() of a symbolic string")

    def __format__(self, spec):
        raise Unsupported("native format() of a symbolic string")

    def __repr__(self):
        return "<symstr>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __mod__(self, a):
        from .rt import sym_mod
        return sym_mod(self, a)

    def __rmod__(self, a):
        from .rt import sym_mod
        return sym_mod(a, self)

    # -- methods; loops over positions decide (fork) in order
    def startswith(self, p, start=0, end=None):
        c = self.c[start:end]
        ps = p if builtins.isinstance(p, tuple) else (p,)
        return mkbool(tm.or_(*[str_eq_term(c[:len(chars(q))], chars(q)) for q in ps]))

    def endswith(self, p, start=0, end=None):
        c = self.c[start:end]
        ps = p if builtins.isinstance(p, tuple) else (p,)
        out = []
        for q in ps:
            q = chars(q)
            out.append(len(q) <= len(c) and str_eq_term(c[len(c) - len(q):], q))
        return mkbool(tm.or_(*out))

    def _at(self, i, b):
        return len(b) + i <= len(self.c) and en.CUR.decide(
            str_eq_term(self.c[i:i + len(b)], b)
        )

    def find(self, sub, start=0, end=None):
        b = chars(sub)
        s, e, _ = slice(start, end).indices(len(self.c))
        for i in range(s, e - len(b) + 1):
            if self._at(i, b):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        b = chars(sub)
        s, e, _ = slice(start, end).indices(len(self.c))
        for i in range(e - len(b), s - 1, -1):
            if self._at(i, b):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, *a):
        b = chars(sub)
        c = mkstr(self.c[slice(*(a or (None,)))])
        if not b:
            return len(c) + 1
        i = n = 0
        while i <= len(c) - len(b):
            if lift(c)._at(i, b):
                n += 1
                i += len(b)
            else:
                i += 1
        return n

    def _isws(self, i):
        return en.CUR.decide(in_set(self.c[i], WS))

    def split(self, sep=None, maxsplit=-1):
        out, cur, i, n = [], [], 0, len(self.c)
        if sep is None:
            while i < n:
                while i < n and self._isws(i):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mkstr(self.c[i:]).rstrip())
                    return out
                j = i
                while j < n and not self._isws(j):
                    j += 1
                out.append(mkstr(self.c[i:j]))
                i = j
            return out
        b = chars(sep)
        if not b:
            raise ValueError("empty separator")
        while i < n:
            if (maxsplit < 0 or len(out) < maxsplit) and self._at(i, b):
                out.append(mkstr(cur))
                cur = []
                i += len(b)
            else:
                cur.append(self.c[i])
                i += 1
        out.append(mkstr(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        out, rest = [], mkstr(self.c)
        if sep is None:
            while len(out) < maxsplit:
                rest = lift(rest).rstrip()
                j = len(rest)
                if not j:
                    break
                r = lift(rest)
                while j > 0 and not r._isws(j - 1):
                    j -= 1
                out.append(mkstr(r.c[j:]))
                rest = mkstr(r.c[:j])
            rest = lift(rest).rstrip()
            return ([rest] if len(rest) else []) + out[::-1]
        b = chars(sep)
        if not b:
            raise ValueError("empty separator")
        while len(out) < maxsplit:
            r = lift(rest)
            i = r.rfind(sep)
            if i < 0:
                break
            out.append(mkstr(r.c[i + len(b):]))
            rest = mkstr(r.c[:i])
        return [rest] + out[::-1]

    def splitlines(self, keepends=False):
        out, cur, i = [], [], 0
        while i < len(self.c):
            x = self.c[i]
            if en.CUR.decide(in_set(x, [10, 11, 12, 13, 0x1C, 0x1D, 0x1E, 0x85, 0x2028, 0x2029])):
                end = [x]
                if self._at(i, (13, 10)):
                    end = [13, 10]
                out.append(mkstr(cur + end if keepends else cur))
                cur = []
                i += len(end)
            else:
                cur.append(x)
                i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def _strip(self, what, left, right):
        codes = WS if what is None else None
        i, j = 0, len(self.c)

        def hit(x):
            if codes is not None:
                return en.CUR.decide(in_set(x, codes))
            return en.CUR.decide(tm.or_(*[tm.eq(x, y) for y in chars(what)]))

        while left and i < j and hit(self.c[i]):
            i += 1
        while right and j > i and hit(self.c[j - 1]):
            j -= 1
        return mkstr(self.c[i:j])

    def strip(self, what=None):
        return self._strip(what, True, True)

    def lstrip(self, what=None):
        return self._strip(what, True, False)

    def rstrip(self, what=None):
        return self._strip(what, False, True)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (mkstr(self.c[:i]), sep, mkstr(self.c[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (mkstr(self.c[:i]), sep, mkstr(self.c[i + len(sep):]))

    def replace(self, a, b, count=-1):
        if not len(a):
            raise Unsupported("str.replace of empty string")
        parts = self.split(a, count)
        return lift(b).join(parts)

    def join(self, xs):
        out = []
        for k, x in enumerate(xs):
            c = chars(x)
            if c is None:
                raise TypeError("sequence item %d: expected str instance" % k)
            if k:
                out.extend(self.c)
            out.extend(c)
        return mkstr(out)

    def removeprefix(self, p):
        return mkstr(self.c[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return mkstr(self.c[:len(self.c) - len(p)]) if len(p) and self.endswith(p) else self

    def format(self, *a, **k):
        from .rt import sym_format
        return sym_format(self, a, k)

    def isspace(self):
        return len(self.c) > 0 and all(self._isws(i) for i in range(len(self.c)))

    def _all(self, name):
        if not self.c:
            return False
        return mkbool(tm.and_(*[_ucd().pred(name, x) for x in self.c]))

    def isdigit(self):
        return self._all("isdigit")

    def isnumeric(self):
        return self._all("isnumeric")

    def isdecimal(self):
        return self._all("isdecimal")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isprintable(self):
        return self._all("isprintable") if self.c else True

    def isascii(self):
        return mkbool(tm.and_(*[tm.le(x, 127) for x in self.c]))

    def isidentifier(self):
        if not self.c:
            return False
        u = _ucd()
        return mkbool(tm.and_(u.pred("isidentifier", self.c[0]), *[
            u.pred("continues", x, lambda ch: ("a" + ch).isidentifier()) for x in self.c[1:]]))

    def _cased(self, want, other):
        u = _ucd()
        return mkbool(tm.and_(
            tm.or_(*[u.pred(want, x) for x in self.c]),
            *[tm.not_(u.pred("not " + want, x,
                             lambda ch: getattr(ch, other)() or (ch.istitle() and not ch.isupper())))
              for x in self.c]))

    def isupper(self):
        return self._cased("isupper", "islower")

    def islower(self):
        u = _ucd()
        return mkbool(tm.and_(
            tm.or_(*[u.pred("islower", x) for x in self.c]),
            *[tm.not_(u.pred("not islower", x, lambda ch: ch.isupper() or ch.istitle()))
              for x in self.c]))

    def _map(self, name):
        out = []
        for x in self.c:
            out.extend(_ucd().mapped(name, x))
        return mkstr(out)

    def lower(self):
        return self._map("lower")

    def upper(self):
        return self._map("upper")

    def casefold(self):
        return self._map("casefold")

    def swapcase(self):
        return self._map("swapcase")

    def capitalize(self):
        u = _ucd()
        out = []
        for k, x in enumerate(self.c):
            out.extend(u.mapped("lower" if k else "title", x))
        return mkstr(out)

    def _pad(self, width, fill):
        n = max(0, operator.index(width) - len(self.c))
        return n, tuple(chars(fill))

    def ljust(self, width, fill=" "):
        n, f = self._pad(width, fill)
        return mkstr(self.c + f * n)

    def rjust(self, width, fill=" "):
        n, f = self._pad(width, fill)
        return mkstr(f * n + self.c)

    def center(self, width, fill=" "):
        n, f = self._pad(width, fill)
        left = n // 2 + (n & operator.index(width) & 1)
        return mkstr(f * left + self.c + f * (n - left))

    def translate(self, table):
        out = []
        for x in self.c:
            for k in list(table):
                kc = chars(k)[0] if builtins.isinstance(k, str) else k
                if en.CUR.decide(tm.eq(x, kc)):
                    v = table[k]
                    if v is not None:
                        out.extend((v,) if builtins.isinstance(v, int) else chars(v))
                    break
            else:
                out.append(x)
        return mkstr(out)

    def encode(self, *a):
        raise Unsupported("str.encode")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if hasattr(str, n):
            raise Unsupported("str.%s" % n)
        raise AttributeError("'str' object has no attribute %r" % n)


def lift(x):
    """SymStr view of a str-like value (also of fully concrete ones)."""
    if isinstance(x, SymStr):
        return x
    c = chars(x)
    if c is None:
        raise TypeError("expected str, got %s" % type(x).__name__)
    return SymStr(c)


_real_isinstance = builtins.isinstance


def isinstance(x, c):  # noqa: A001  (type(x) based: __class__ is faked)
    return issubclass(type(x), c)


class LazyStr(SymStr):
    __slots__ = ()


def lazystr(thunk):
    return LazyStr(None, thunk)


# ------------------------------------------------------------------ containers
def is_sym(x):
    t = type(x)
    if t in (str, int, float, bool, bytes, type(None)):
        return False
    if t is SymStr or t is LazyStr:
        return True
    if t is SymInt or t is SymBool:
        return True
    if t is tuple or (isinstance(x, tuple)):
        return any(is_sym(y) for y in tuple.__iter__(x))
    return False


_KINDS = {SymStr: "s", LazyStr: "s", str: "s", SymInt: "n", SymBool: "n", int: "n",
          bool: "n", float: "n"}


def key_eq(a, b):
    """Term for equality of two dictionary keys."""
    if a is b:
        return True
    ka, kb = _KINDS.get(type(a)), _KINDS.get(type(b))
    if ka and kb and ka != kb:
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return tm.and_(*[key_eq(x, y) for x, y in zip(a, b)])
    r = a == b
    if r is NotImplemented:
        return False
    return bterm(r)


class _Entries:
    """Insertion-ordered entries keyed by possibly symbolic keys."""

    __slots__ = ("e", "ix", "sy", "n")

    def __init__(self):
        self.e = {}
        self.ix = {}
        self.sy = []
        self.n = 0

    def find(self, k):
        if not is_sym(k):
            s = self.ix.get(k)
            if s is not None:
                return s
            for s in self.sy:
                if en.CUR.decide(key_eq(self.e[s][0], k)):
                    return s
            return None
        for s, kv in self.e.items():
            if kv[0] is k:
                return s
        for s, kv in self.e.items():
            if en.CUR.decide(key_eq(kv[0], k)):
                return s
        return None

    def set(self, k, v):
        s = self.find(k)
        if s is None:
            s = self.n
            self.n += 1
            self.e[s] = [k, v]
            if is_sym(k):
                self.sy.append(s)
            else:
                self.ix[k] = s
        else:
            self.e[s][1] = v

    def pop(self, s):
        k, v = self.e.pop(s)
        if is_sym(k):
            self.sy.remove(s)
        else:
            del self.ix[k]
        return k, v

    def clear(self):
        self.e.clear()
        self.ix.clear()
        self.sy.clear()

    def copy(self):
        o = _Entries()
        o.e = {s: list(kv) for s, kv in self.e.items()}
        o.ix = dict(self.ix)
        o.sy = list(self.sy)
        o.n = self.n
        return o

    def items(self):
        n = len(self.e)
        for s in list(self.e):
            if s in self.e:
                yield self.e[s]
            if len(self.e) != n:
                raise RuntimeError("dictionary changed size during iteration")


class _View:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        for kv in self.d._x.items():
            if self.kind == "k":
                yield kv[0]
            elif self.kind == "v":
                yield kv[1]
            else:
                yield (kv[0], kv[1])

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __contains__(self, x):
        if self.kind == "k":
            return x in self.d
        for y in self:
            if y is x or y == x:
                return True
        return False

    def _set(self):
        return SymSet(self)

    def __and__(self, o):
        return self._set().intersection(o)

    def __or__(self, o):
        return self._set().union(o)

    def __sub__(self, o):
        return self._set().difference(o)

    def __xor__(self, o):
        return self._set().symmetric_difference(o)

    __rand__ = __and__
    __ror__ = __or__

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __eq__(self, o):
        return self._set() == SymSet(o)

    def __le__(self, o):
        return self._set() <= SymSet(o)

    def __ge__(self, o):
        return self._set() >= SymSet(o)

    def isdisjoint(self, o):
        return self._set().isdisjoint(o)

    def __repr__(self):
        return "<view>"


_MISSING = object()


class SymDict:
    """Replacement for dict: keys may be symbolic."""

    def __init__(self, *a, **k):
        self._x = _Entries()
        self._fill(a, k)

    def _fill(self, a, k):
        if len(a) > 1:
            raise TypeError("dict expected at most 1 argument, got %d" % len(a))
        if a:
            self.update(a[0])
        for n, v in k.items():
            self[n] = v

    @property
    def __class__(self):
        t = type(self)
        return dict if t is SymDict else t

    @classmethod
    def fromkeys(cls, ks, v=None):
        d = cls()
        for k in ks:
            d[k] = v
        return d

    def __len__(self):
        return len(self._x.e)

    def __bool__(self):
        return len(self._x.e) > 0

    def __iter__(self):
        for kv in self._x.items():
            yield kv[0]

    def __reversed__(self):
        return iter([kv[0] for kv in self._x.items()][::-1])

    def __contains__(self, k):
        hashable(k)
        return self._x.find(k) is not None

    def __missing__(self, k):
        raise KeyError(k)

    def __getitem__(self, k):
        hashable(k)
        if is_sym(k):
            m = merged_lookup(self, k)
            if m is not None:
                return m
        s = self._x.find(k)
        if s is None:
            return self.__missing__(k)
        return self._x.e[s][1]

    def __setitem__(self, k, v):
        hashable(k)
        self._x.set(k, v)

    def __delitem__(self, k):
        hashable(k)
        s = self._x.find(k)
        if s is None:
            raise KeyError(k)
        self._x.pop(s)

    def get(self, k, d=None):
        hashable(k)
        if is_sym(k):
            m = merged_lookup(self, k)
            if m is not None:
                return m
        s = self._x.find(k)
        return d if s is None else self._x.e[s][1]

    def setdefault(self, k, d=None):
        s = self._x.find(k)
        if s is None:
            self[k] = d
            return d
        return self._x.e[s][1]

    def pop(self, k, d=_MISSING):
        s = self._x.find(k)
        if s is None:
            if d is _MISSING:
                raise KeyError(k)
            return d
        return self._x.pop(s)[1]

    def popitem(self):
        if not self._x.e:
            raise KeyError("popitem(): dictionary is empty")
        return self._x.pop(next(reversed(self._x.e)))

    def clear(self):
        self._x.clear()

    def update(self, *a, **k):
        if a:
            o = a[0]
            if hasattr(o, "keys"):
                for x in o.keys():
                    self[x] = o[x]
            else:
                for p in o:
                    x, v = p
                    self[x] = v
        for n, v in k.items():
            self[n] = v

    def keys(self):
        return _View(self, "k")

    def values(self):
        return _View(self, "v")

    def items(self):
        return _View(self, "i")

    def copy(self):
        d = type(self).__new__(type(self))
        d.__dict__.update(self.__dict__)
        d._x = self._x.copy()
        return d

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        d = type(self).__new__(type(self))
        memo[id(self)] = d
        d.__dict__.update(self.__dict__)
        d._x = self._x.copy()
        for kv in d._x.e.values():
            kv[1] = copy.deepcopy(kv[1], memo)
        return d

    def __or__(self, o):
        if not hasattr(o, "keys"):
            return NotImplemented
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = SymDict(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if o is self:
            return True
        if not (isinstance(o, (SymDict, dict))):
            return NotImplemented
        if len(self) != len(o):
            return False
        if isinstance(o, dict):
            o = SymDict(o)
        for k, v in self._x.items():
            s = o._x.find(k)
            if s is None:
                return False
            w = o._x.e[s][1]
            if v is not w and not (v == w):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join("%r: %r" % (k, v) for k, v in self._x.items()) + "}"

    def __class_getitem__(cls, x):
        return cls


def hashable(k):
    t = type(k)
    if t is str or t is SymStr or t is int or t is SymInt:
        return
    if t in (list, SymDict, dict, set, GuardedSet, bytearray) or (
        isinstance(k, (SymDict,)) or (isinstance(k, SymSet) and not isinstance(k, SymFrozenSet))
    ):
        raise TypeError("unhashable type: %r" % getattr(k, "__class__", t).__name__)
    if t is tuple:
        for x in k:
            hashable(x)
    elif not is_sym(k):
        hash(k)


def merged_lookup(d, k):
    """d[k] for symbolic k when every value is a guarded set: no fork."""
    gs = None
    for kv in d._x.e.values():
        if type(kv[1]) is not GuardedSet:
            return None
        gs = True
    if not gs:
        return None
    terms, any_ = [], []
    for kk, v in d._x.e.values():
        t = key_eq(kk, k)
        any_.append(t)
        terms.append((t, v))
    if not en.CUR.decide(tm.or_(*any_)):
        return None
    out = {}
    for t, v in terms:
        for el, g in v.g.items():
            out.setdefault(el, []).append(tm.and_(t, g))
    return GuardedSet({el: tm.or_(*ts) for el, ts in out.items()})


class SymSet:
    """Replacement for set: members may be symbolic."""

    def __init__(self, xs=()):
        self._x = _Entries()
        for x in xs:
            self.add(x)

    @property
    def __class__(self):
        t = type(self)
        return set if t is SymSet else t

    def add(self, x):
        hashable(x)
        self._x.set(x, None)

    def __len__(self):
        return len(self._x.e)

    def __bool__(self):
        return len(self._x.e) > 0

    def __iter__(self):
        o = order_hook(self)
        if o is not None:
            return iter(o)
        return self._iter()

    def _iter(self):
        for kv in self._x.items():
            yield kv[0]

    def __contains__(self, x):
        hashable(x)
        return self._x.find(x) is not None

    def remove(self, x):
        s = self._x.find(x)
        if s is None:
            raise KeyError(x)
        self._x.pop(s)

    def discard(self, x):
        s = self._x.find(x)
        if s is not None:
            self._x.pop(s)

    def pop(self):
        if not self._x.e:
            raise KeyError("pop from an empty set")
        x = next(iter(self))
        self.remove(x)
        return x

    def clear(self):
        self._x.clear()

    def copy(self):
        n = type(self)()
        n._x = self._x.copy()
        return n

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def update(self, *os):
        for o in os:
            for x in o:
                self.add(x)

    def union(self, *os):
        if any(type(o) is GuardedSet for o in os):
            return GuardedSet.of(self).union(*os)
        n = self.copy()
        for o in os:
            for x in o:
                n._x.set(x, None)
        return n

    def intersection(self, *os):
        if any(type(o) is GuardedSet for o in os):
            return GuardedSet.of(self).intersection(*os)
        n = self.copy()
        for o in os:
            o = _asset(o)
            for x in [kv[0] for kv in n._x.items()]:
                if x not in o:
                    n.discard(x)
        return n

    def difference(self, *os):
        if any(type(o) is GuardedSet for o in os):
            return GuardedSet.of(self).difference(*os)
        n = self.copy()
        for o in os:
            for x in o:
                n.discard(x)
        return n

    def symmetric_difference(self, o):
        o = _asset(o)
        return (self - o) | (o - self)

    def intersection_update(self, *os):
        self._x = _asset(self.intersection(*os))._x

    def difference_update(self, *os):
        self._x = _asset(self.difference(*os))._x

    def symmetric_difference_update(self, o):
        self._x = self.symmetric_difference(o)._x

    def issubset(self, o):
        if type(o) is GuardedSet:
            return GuardedSet.of(self).issubset(o)
        o = _asset(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        if type(o) is GuardedSet:
            return o.issubset(self)
        return all(x in self for x in o)

    def isdisjoint(self, o):
        if type(o) is GuardedSet:
            return o.isdisjoint(self)
        return not any(x in self for x in o)

    def __or__(self, o):
        return self.union(o) if _setlike(o) else NotImplemented

    def __ror__(self, o):
        return SymSet(o).union(self)

    def __and__(self, o):
        return self.intersection(o) if _setlike(o) else NotImplemented

    def __rand__(self, o):
        return SymSet(o).intersection(self)

    def __sub__(self, o):
        return self.difference(o) if _setlike(o) else NotImplemented

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o) if _setlike(o) else NotImplemented

    def __ior__(self, o):
        if type(o) is GuardedSet:
            return self.union(o)
        self.update(o)
        return self

    def __iand__(self, o):
        if type(o) is GuardedSet:
            return self.intersection(o)
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        if type(o) is GuardedSet:
            return self.difference(o)
        self.difference_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not _setlike(o):
            return NotImplemented
        if type(o) is GuardedSet:
            return o == self
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join("%r" % (kv[0],) for kv in self._x.items()) + "}"

    def __class_getitem__(cls, x):
        return cls


class SymFrozenSet(SymSet):
    @property
    def __class__(self):
        return frozenset

    def __hash__(self):
        return hash(frozenset(self))


def order_hook(s):
    h = getattr(en.CUR, "set_order", None)
    return h(s) if h is not None else None




def _setlike(o):
    return isinstance(o, (SymSet, set, frozenset, GuardedSet, _View)) or (
        type(o).__name__ in ("dict_keys",)
    )


def _asset(o):
    if isinstance(o, (SymSet, GuardedSet)):
        return o
    return SymSet(o)


class GuardedSet:
    """Set over a concrete universe; membership of each element is a term."""

    __slots__ = ("g",)

    def __init__(self, g):
        self.g = {k: t for k, t in g.items() if t is not False}

    @classmethod
    def of(cls, xs):
        if type(xs) is GuardedSet:
            return xs
        g = {}
        for x in xs:
            if is_sym(x):
                x = x.conc()
            g[x] = True
        return cls(g)

    @property
    def __class__(self):
        return set

    def _has(self, x):
        if not is_sym(x):
            return self.g.get(x, False)
        return tm.or_(*[tm.and_(key_eq(k, x), t) for k, t in self.g.items()])

    def has(self, x):
        return mkbool(self._has(x))

    def __contains__(self, x):
        return en.CUR.decide(self._has(x))

    def __bool__(self):
        return en.CUR.decide(tm.or_(*self.g.values()))

    def __iter__(self):
        for k, t in list(self.g.items()):
            if en.CUR.decide(t):
                yield k

    def __len__(self):
        return sum(1 for _ in self)

    def union(self, *os):
        g = dict(self.g)
        for o in os:
            for k, t in GuardedSet.of(o).g.items():
                g[k] = tm.or_(g.get(k, False), t)
        return GuardedSet(g)

    def intersection(self, *os):
        g = dict(self.g)
        for o in os:
            o = GuardedSet.of(o)
            g = {k: tm.and_(t, o.g.get(k, False)) for k, t in g.items()}
        return GuardedSet(g)

    def difference(self, *os):
        g = dict(self.g)
        for o in os:
            o = GuardedSet.of(o)
            g = {k: tm.and_(t, tm.not_(o.g.get(k, False))) for k, t in g.items()}
        return GuardedSet(g)

    def symmetric_difference(self, o):
        return self.difference(o).union(GuardedSet.of(o).difference(self))

    def issubset(self, o):
        o = GuardedSet.of(o)
        return mkbool(tm.and_(*[tm.implies(t, o.g.get(k, False)) for k, t in self.g.items()]))

    def issuperset(self, o):
        return GuardedSet.of(o).issubset(self)

    def isdisjoint(self, o):
        i = self.intersection(o)
        return mkbool(tm.not_(tm.or_(*i.g.values())))

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return GuardedSet.of(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return bool(self.issubset(o)) and not bool(self.issuperset(o))

    def __gt__(self, o):
        return bool(self.issuperset(o)) and not bool(self.issubset(o))

    def __eq__(self, o):
        if not _setlike(o):
            return NotImplemented
        o = GuardedSet.of(o)
        return mkbool(tm.and_(*[
            tm.iff(self.g.get(k, False), o.g.get(k, False))
            for k in {**self.g, **o.g}
        ]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(tm.not_(bterm(r)))

    __hash__ = None

    def copy(self):
        return GuardedSet(dict(self.g))

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def add(self, x):
        if is_sym(x):
            x = x.conc()
        self.g[x] = True

    def discard(self, x):
        if is_sym(x):
            x = x.conc()
        self.g.pop(x, None)

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def update(self, *os):
        self.g = self.union(*os).g

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("set.%s on a guarded set" % n)

    def __repr__(self):
        return "<guardedset>"
