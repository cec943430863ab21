"""Unicode functions of single characters, as tables of code point ranges."""
import builtins
import unicodedata as ud
from . import engine as en
from . import terms as tm
from .terms import T

_parts = {}


def parts(key, fn):
    """The code points, partitioned by the value of fn: {value: [(lo, hi)...]}."""
    if key not in _parts:
        out = {}
        last, lo = None, 0
        first = True
        for k in range(0x110000):
            v = fn(chr(k))
            if first or v != last:
                if not first:
                    out.setdefault(last, []).append((lo, k - 1))
                last, lo, first = v, k, False
        out.setdefault(last, []).append((lo, 0x10FFFF))
        _parts[key] = out
    return _parts[key]


def within(c, ranges):
    """Term: c lies in one of the (ascending) ranges."""
    if type(c) is not T:
        return builtins.any(lo <= c <= hi for lo, hi in ranges)
    if len(ranges) > 24:
        m = len(ranges) // 2
        cut = ranges[m][0]
        return tm.or_(tm.and_(tm.lt(c, cut), within(c, ranges[:m])),
                      tm.and_(tm.le(cut, c), within(c, ranges[m:])))
    return tm.or_(*[tm.eq(c, lo) if lo == hi else tm.between(lo, c, hi) for lo, hi in ranges])


def pred(key, c, fn=None):
    """Term: the predicate (a str method by default) holds for c."""
    return within(c, parts(key, fn or (lambda ch: getattr(ch, key)())).get(True, []))


def pick(c, prefer=(), limit=8):
    """Fork over some values of c, the preferred ones first."""
    if type(c) is not T:
        return c
    for v in prefer:
        v = ord(v)
        if en.CUR.decide(tm.eq(c, v)):
            return v
    return en.CUR.concretize_int(c, limit)


def value(key, c, fn):
    """fn of a character, forking over the values (the most frequent first)."""
    if type(c) is not T:
        return fn(chr(c))
    p = parts(key, fn)
    if len(p) > 70:
        return fn(chr(pick(c)))
    for v in sorted(p, key=lambda v: -sum(b - a + 1 for a, b in p[v])):
        if en.CUR.decide(within(c, p[v])):
            return v
    raise en.Unsupported("no value of " + key)


def mapped(name, c):
    """Code points of a character's mapping by a str method (lower, upper...)."""
    if type(c) is not T:
        return list(map(ord, getattr(chr(c), name)()))

    def delta(ch):
        r = getattr(ch, name)()
        return ord(r) - ord(ch) if len(r) == 1 else None

    if name == "lower" and en.CUR.decide(tm.eq(c, 0x3A3)):
        raise en.Unsupported("lower() of a capital sigma")
    p = parts("delta " + name, delta)
    big = sorted((v for v in p if v is not None),
                 key=lambda v: -sum(b - a + 1 for a, b in p[v]))
    for v in big[:4]:
        if en.CUR.decide(within(c, p[v])):
            return [tm.add(c, v) if v else c]
    v = pick(c, "ßŉﬁİΐıK")
    return list(map(ord, getattr(chr(v), name)()))


# ---- normalization
_second = None


def _inert(form):
    """Characters that normalization leaves alone whatever stands next to them."""
    global _second
    if _second is None:
        _second = set(range(0x1161, 0x1176)) | set(range(0x11A7, 0x11C3))
        for k in range(0x110000):
            d = ud.decomposition(chr(k))
            if d and "<" not in d and len(d.split()) == 2:
                _second.add(int(d.split()[1], 16))
    return lambda ch: (ud.combining(ch) == 0 and ud.normalize(form, ch) == ch
                       and ("C" not in form or ord(ch) not in _second))


SAMPLES = "\u0301\u212bé\u0958\u1161ﬁ\u0323"


def inert_term(form, c):
    if type(c) is not T and c < 128:
        return True
    return within(c, parts("inert " + form, _inert(form)).get(True, []))


def normalize(form, s):
    from . import values as V
    if not V.isinstance(s, V.SymStr):
        return ud.normalize(form, s)
    if en.CUR.decide(tm.and_(*[inert_term(form, c) for c in s.c])):
        return s
    return ud.normalize(form, _sample(form, s))


def _sample(form, s):
    out = []
    for c in s.c:
        if type(c) is T:
            if en.CUR.decide(inert_term(form, c)):
                c = pick(c, "eaAक")
            else:
                c = pick(c, SAMPLES, 4)
        out.append(chr(c))
    return "".join(out)


def is_normalized(form, s):
    from . import values as V
    if not V.isinstance(s, V.SymStr):
        return ud.is_normalized(form, s)
    if en.CUR.decide(tm.and_(*[inert_term(form, c) for c in s.c])):
        return True
    return ud.is_normalized(form, _sample(form, s))


_NONE = object()


def function(name):
    """unicodedata.<name> for symbolic characters."""
    real = getattr(ud, name)

    def f(ch, *default):
        from . import values as V
        if not V.isinstance(ch, V.SymStr):
            return real(ch, *default)
        if len(ch.c) != 1:
            raise TypeError("%s() argument must be a unicode character" % name)
        c = ch.c[0]
        if type(c) is not T:
            return real(chr(c), *default)
        if name in ("name", "decimal", "digit", "numeric"):
            has = parts("has " + name, lambda x: real(x, None) is not None).get(True, [])
            if not en.CUR.decide(within(c, has)):
                if default:
                    return default[0]
                raise ValueError("no such " + name if name == "name" else "not a " + name)
            if name == "name":
                return V.lazystr(lambda: real(chr(pick(c, "aé"))))
        return value(name, c, real) if name in (
            "combining", "category", "bidirectional", "east_asian_width", "mirrored"
        ) else real(chr(pick(c, "1½٣é")))

    return f
