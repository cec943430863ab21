"""Regular expressions on symbolic strings: a backtracking matcher over the parse
tree of CPython's own parser, in which every character test may fork."""
import re as _re
import re._constants as C
import re._parser as P
import sys
import types
import unicodedata
from .. import engine as en
from .. import terms as tm
from .. import values as V
from ..engine import Unsupported
from ..terms import T
from ..values import SymStr, mkstr

PRIV = 0xF0000  # plane 15: placeholders for symbolic literals in patterns
_SPECIAL_ESC = set(map(ord, "()[]{}?*+-|^$\\.&~# \t\n\r\v\f"))
_META = set(map(ord, "()[]{}?*+|^$\\."))

A = ASCII = _re.ASCII
I = IGNORECASE = _re.IGNORECASE
M = MULTILINE = _re.MULTILINE
S = DOTALL = _re.DOTALL
U = UNICODE = _re.UNICODE
X = VERBOSE = _re.VERBOSE
L = LOCALE = _re.LOCALE
NOFLAG = _re.NOFLAG
RegexFlag = _re.RegexFlag
error = _re.error


def escape(p):
    if type(p) is str:
        return _re.escape(p)
    out = []
    for c in p.c:
        if en.CUR.decide(V.in_set(c, _SPECIAL_ESC)):
            out.append(92)
        out.append(c)
    return mkstr(out)


def _symbolic_pattern(p):
    """Replace symbolic pattern characters by placeholders."""
    out, back = [], {}
    cs = p.c
    i = 0
    incls = False
    while i < len(cs):
        c = cs[i]
        if c == 92 and i + 1 < len(cs):
            d = cs[i + 1]
            out.append(92)
            if type(d) is T:
                if en.CUR.decide(V.in_set(d, [k for k in range(128) if chr(k).isalnum()])):
                    d = en.CUR.concretize_int(d)
                else:
                    k = PRIV + len(back)
                    back[k] = d
                    out[-1] = k
                    i += 2
                    continue
            out.append(d)
            i += 2
            continue
        if type(c) is T:
            if en.CUR.decide(V.in_set(c, _META)):
                c = en.CUR.concretize_int(c)
            else:
                # characters that are special only inside a set or counted
                # repetition are concretized there
                ctx = "".join(chr(x) if type(x) is not T else "" for x in cs[:i])
                if ctx.count("[") > ctx.count("\\[") + ctx.count("]"):
                    c = en.CUR.concretize_int(c)
                else:
                    k = PRIV + len(back)
                    back[k] = c
                    c = k
        out.append(c)
        i += 1
    return "".join(map(chr, out)), back


class Match:
    def __init__(self, pat, s, g, pos, endpos):
        self.re, self.string, self._g, self.pos, self.endpos = pat, s, g, pos, endpos

    def _idx(self, k):
        if type(k) is str:
            return self.re.groupindex[k]
        k = k.__index__()
        if not 0 <= k <= self.re.groups:
            raise IndexError("no such group")
        return k

    def span(self, k=0):
        return self._g.get(self._idx(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _one(self, k, default=None):
        sp = self._g.get(self._idx(k))
        return default if sp is None else self.string[sp[0]:sp[1]]

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return V.SymDict({n: self._one(n, default) for n in self.re.groupindex})

    def __bool__(self):
        return True

    def expand(self, t):
        raise Unsupported("Match.expand")

    @property
    def lastindex(self):
        raise Unsupported("Match.lastindex")


_cats = {}


def _cat_codes(cat):
    """Code point ranges of a Unicode category class."""
    r = _cats.get(cat)
    if r is None:
        f = {
            C.CATEGORY_SPACE: str.isspace,
            C.CATEGORY_DIGIT: str.isdecimal,
            C.CATEGORY_WORD: lambda c: c.isalnum() or c == "_",
        }[cat]
        r, lo = [], None
        for k in range(sys.maxunicode + 2):
            hit = k <= sys.maxunicode and f(chr(k))
            if hit and lo is None:
                lo = k
            elif not hit and lo is not None:
                r.append((lo, k - 1))
                lo = None
        _cats[cat] = r
    return r


_NEG = {C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE, C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT,
        C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}


def _cat_term(cat, c):
    if cat in _NEG:
        return tm.not_(_cat_term(_NEG[cat], c))
    return tm.or_(*[tm.between(lo, c, hi) for lo, hi in _cat_codes(cat)])


class Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        if type(pattern) is str:
            src, back = pattern, {}
        else:
            src, back = _symbolic_pattern(pattern)
        self.back = back
        self.tree = P.parse(src, int(flags))
        self.flags = self.tree.state.flags
        if self.flags & (I | L | A | X) and back:
            raise Unsupported("regular expression flags")
        self.groups = self.tree.state.groups - 1
        self.groupindex = dict(self.tree.state.groupdict)
        self._real = None
        if not back:
            self._real = _re.compile(src, flags)

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        return isinstance(o, Pattern) and o.pattern == self.pattern and o.flags == self.flags

    def __hash__(self):
        return id(self)

    # ---- character tests
    def _lit(self, c, v):
        if self.flags & I:
            raise Unsupported("IGNORECASE")
        return tm.eq(c, self.back.get(v, v))

    def _set(self, c, items):
        neg, out = False, []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                out.append(self._lit(c, av))
            elif op is C.RANGE:
                if av[0] in self.back or av[1] in self.back:
                    raise Unsupported("symbolic range in a pattern")
                if self.flags & I:
                    raise Unsupported("IGNORECASE")
                out.append(tm.between(av[0], c, av[1]))
            elif op is C.CATEGORY:
                if self.flags & A:
                    raise Unsupported("ASCII")
                out.append(_cat_term(av, c))
            else:
                raise Unsupported("set item %s" % op)
        t = tm.or_(*out)
        return tm.not_(t) if neg else t

    # ---- backtracking matcher in continuation-passing style
    def _m(self, seq, k, s, i, end, g, cont):
        """Match seq[k:] at i; cont(i, g) -> result or None."""
        en.CUR.tick()
        while True:
            if k == len(seq):
                return cont(i, g)
            op, av = seq[k]
            t = None
            if op is C.LITERAL:
                t = self._lit(s[i], av) if i < end else False
            elif op is C.NOT_LITERAL:
                t = tm.not_(self._lit(s[i], av)) if i < end else False
            elif op is C.ANY:
                if i >= end:
                    t = False
                elif self.flags & S:
                    t = True
                else:
                    t = tm.not_(tm.eq(s[i], 10))
            elif op is C.IN:
                t = self._set(s[i], av) if i < end else False
            if t is not None:
                if not en.CUR.decide(t):
                    return None
                i += 1
                k += 1
                continue
            break
        nxt = lambda j, h: self._m(seq, k + 1, s, j, end, h, cont)  # noqa: E731
        if op is C.SUBPATTERN:
            gid, addf, delf, p = av
            if addf or delf:
                raise Unsupported("inline flags")
            if gid is None:
                return self._m(p.data, 0, s, i, end, g, nxt)

            def close(j, h):
                h = dict(h)
                h[gid] = (i, j)
                return nxt(j, h)

            return self._m(p.data, 0, s, i, end, g, close)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self._m(alt.data, 0, s, i, end, g, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av

            def rep(n, j, h, last):
                en.CUR.tick()

                def more():
                    if hi is not C.MAXREPEAT and n >= hi:
                        return None
                    if n >= lo and j == last:
                        return None  # empty iteration
                    return self._m(p.data, 0, s, j, end, h,
                                   lambda j2, h2: rep(n + 1, j2, h2, j))

                if n < lo:
                    return more()
                if op is C.MAX_REPEAT:
                    r = more()
                    return r if r is not None else nxt(j, h)
                r = nxt(j, h)
                return r if r is not None else more()

            return rep(0, i, g, -1)
        if op is C.POSSESSIVE_REPEAT or op is C.ATOMIC_GROUP:
            raise Unsupported("atomic group")
        if op is C.AT:
            if av is C.AT_BEGINNING:
                ok = i == 0 or bool(
                    self.flags & M and en.CUR.decide(tm.eq(s[i - 1], 10)))
            elif av is C.AT_BEGINNING_STRING:
                ok = i == 0
            elif av is C.AT_END:
                ok = i == end or (
                    (i == end - 1 or self.flags & M) and en.CUR.decide(tm.eq(s[i], 10))
                )
            elif av is C.AT_END_STRING:
                ok = i == end
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = i > 0 and en.CUR.decide(_cat_term(C.CATEGORY_WORD, s[i - 1]))
                b = i < end and en.CUR.decide(_cat_term(C.CATEGORY_WORD, s[i]))
                ok = (a != b) == (av is C.AT_BOUNDARY)
            else:
                raise Unsupported("anchor %s" % av)
            return nxt(i, g) if ok else None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d >= 0:
                r = self._m(p.data, 0, s, i, end, g, lambda j, h: (j, h))
            else:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise error("look-behind requires fixed-width pattern")
                r = None
                if i - lo >= 0:
                    r = self._m(p.data, 0, s, i - lo, i, g,
                                lambda j, h: (j, h) if j == i else None)
            if op is C.ASSERT:
                return None if r is None else nxt(i, r[1])
            return nxt(i, g) if r is None else None
        if op is C.GROUPREF:
            sp = g.get(av)
            if sp is None:
                return None
            w = sp[1] - sp[0]
            if i + w > end:
                return None
            if not en.CUR.decide(V.str_eq_term(s[sp[0]:sp[1]], s[i:i + w])):
                return None
            return nxt(i + w, g)
        raise Unsupported("regular expression operator %s" % op)

    def _run(self, string, i, end, full=False):
        s = V.chars(string)
        r = self._m(
            self.tree.data, 0, s, i, end, {},
            lambda j, g: (j, g) if not full or j == end else None,
        )
        if r is None:
            return None
        g = dict(r[1])
        g[0] = (i, r[0])
        return Match(self, string, g, i, end)

    def _bounds(self, string, pos, endpos):
        c = V.chars(string)
        if c is None:
            raise TypeError("expected string or bytes-like object, got %r" % type(string).__name__)
        n = len(c)
        pos = pos.__index__()
        end = n if endpos is None else min(endpos.__index__(), n)
        return max(0, min(pos, n)), end

    def match(self, string, pos=0, endpos=None):
        i, e = self._bounds(string, pos, endpos)
        if self._real is not None and type(string) is str:
            m = self._real.match(string, i, e)
            return None if m is None else self._wrap(m, string)
        return self._run(string, i, e)

    def fullmatch(self, string, pos=0, endpos=None):
        i, e = self._bounds(string, pos, endpos)
        if self._real is not None and type(string) is str:
            m = self._real.fullmatch(string, i, e)
            return None if m is None else self._wrap(m, string)
        return self._run(string, i, e, True)

    def _wrap(self, m, string):
        g = {k: m.span(k) for k in range(self.groups + 1) if m.span(k) != (-1, -1)}
        return Match(self, string, g, m.pos, m.endpos)

    def search(self, string, pos=0, endpos=None):
        i, e = self._bounds(string, pos, endpos)
        while i <= e:
            m = self._run(string, i, e)
            if m is not None:
                return m
            i += 1
        return None

    def finditer(self, string, pos=0, endpos=None):
        i, e = self._bounds(string, pos, endpos)
        last = -1  # end of the last match; an empty match there is not repeated
        while i <= e:
            m = self._run(string, i, e)
            if m is None:
                i += 1
                continue
            yield m
            if m.end() == i:
                i += 1
            else:
                i = m.end()
                # CPython: an empty match directly after a match is allowed, but a
                # non-empty one is preferred; that is what the next attempt does

    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m._one(1, ""))
            else:
                out.append(m.groups(""))
        return out

    def subn(self, repl, string, count=0):
        out, last, n = V.lift(""), 0, 0
        parts = []
        for m in self.finditer(string):
            if count and n >= count:
                break
            parts.append(string[last:m.start()])
            if callable(repl):
                parts.append(repl(m))
            else:
                if 92 in [c for c in V.chars(repl) if type(c) is not T]:
                    raise Unsupported("template in re.sub")
                parts.append(repl)
            last = m.end()
            n += 1
        parts.append(string[last:])
        return out.join(parts), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        out, last, n = [], 0, 0
        for m in self.finditer(string):
            if maxsplit and n >= maxsplit:
                break
            out.append(string[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(string[last:])
        return out

    def scanner(self, *a):
        raise Unsupported("Pattern.scanner")


_cache = {}


def compile(p, flags=0):  # noqa: A001
    if type(p) is Pattern:
        return p
    if type(p) is str:
        k = (p, int(flags))
        if k not in _cache:
            _cache[k] = Pattern(p, flags)
        return _cache[k]
    if V.chars(p) is None:
        return _re.compile(p, flags)
    return Pattern(p, flags)


def match(p, s, flags=0):
    return compile(p, flags).match(s)


def fullmatch(p, s, flags=0):
    return compile(p, flags).fullmatch(s)


def search(p, s, flags=0):
    return compile(p, flags).search(s)


def findall(p, s, flags=0):
    return compile(p, flags).findall(s)


def finditer(p, s, flags=0):
    return compile(p, flags).finditer(s)


def sub(p, repl, s, count=0, flags=0):
    return compile(p, flags).sub(repl, s, count)


def subn(p, repl, s, count=0, flags=0):
    return compile(p, flags).subn(repl, s, count)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)


def purge():
    pass
