"""JSON: the text of a value is kept as its structure; loads returns that
structure with JSON's changes (string keys, lists, nothing else)."""
import json as _json
from .. import terms as tm
from .. import values as V
from ..engine import Unsupported
from ..values import SymDict, SymInt, SymBool, SymStr, mkstr

JSONDecodeError = _json.JSONDecodeError
JSONEncoder = _json.JSONEncoder
JSONDecoder = _json.JSONDecoder


def _key(k):
    if V.chars(k) is not None:
        return k
    if k is True:
        return "true"
    if k is False:
        return "false"
    if k is None:
        return "null"
    if type(k) in (int, float):
        return _json.dumps(k)
    if type(k) is SymInt:
        from .. import rt
        return rt.int_to_str(k)
    raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)


def norm(x, default=None, sort_keys=False):
    """What loads(dumps(x)) gives, as plain lists and SymDicts."""
    t = type(x)
    if t in (str, int, float, bool, SymInt, SymBool) or x is None or V.chars(x) is not None:
        return x
    if V.isinstance(x, (list, tuple)):
        return [norm(y, default, sort_keys) for y in x]
    if V.isinstance(x, (SymDict, dict)):
        d = SymDict()
        items = [(k, v) for k, v in x.items()]
        if sort_keys:
            items.sort(key=lambda kv: kv[0])
        for k, v in items:
            d[_key(k)] = norm(v, default, sort_keys)
        return d
    if default is not None:
        return norm(default(x), default, sort_keys)
    raise TypeError("Object of type %s is not JSON serializable" % t.__name__)


def copy(x):
    if type(x) is list:
        return [copy(y) for y in x]
    if type(x) is SymDict:
        d = SymDict()
        d._x = x._x.copy()
        for kv in d._x.e.values():
            kv[1] = copy(kv[1])
        return d
    return x


def plain(x):
    """Real Python value of a structure without symbolic content."""
    if type(x) is list:
        return [plain(y) for y in x]
    if type(x) is SymDict:
        return {k: plain(v) for k, v in x.items()}
    return x


def text_eq(a, b):
    """Term: two structures have the same text (key order matters)."""
    if type(a) is list and type(b) is list:
        if len(a) != len(b):
            return False
        return tm.and_(*[text_eq(x, y) for x, y in zip(a, b)])
    if type(a) is SymDict and type(b) is SymDict:
        if len(a) != len(b):
            return False
        return tm.and_(*[
            tm.and_(V.bterm(V.key_eq(p[0], q[0])), text_eq(p[1], q[1]))
            for p, q in zip(a._x.items(), b._x.items())
        ])
    if type(a) in (list, SymDict) or type(b) in (list, SymDict):
        return False
    if (type(a) in (bool, SymBool)) != (type(b) in (bool, SymBool)):
        return False
    if type(a) is float and type(b) is int or type(a) is int and type(b) is float:
        return False
    if (V.chars(a) is None) != (V.chars(b) is None):
        return False
    return V.bterm(V.key_eq(a, b))


class JsonText(SymStr):
    """The JSON text of a structure with symbolic content."""

    __slots__ = ("val", "fmt")

    def __init__(self, val, fmt):
        SymStr.__init__(self, None, self._render)
        self.val, self.fmt = val, fmt

    def _render(self):
        raise Unsupported("characters of a symbolic JSON text")

    def __len__(self):
        raise Unsupported("length of a symbolic JSON text")

    def __bool__(self):
        return True

    def __eq__(self, o):
        if o is self:
            return True
        if type(o) is JsonText:
            if o.fmt != self.fmt:
                raise Unsupported("comparison of JSON texts in different formats")
            return V.mkbool(text_eq(self.val, o.val))
        if type(o) is str:
            try:
                v = norm(_load_plain(o))
            except ValueError:
                return False
            if self.fmt[0] is None and dumps(v) != o:
                return False
            return V.mkbool(text_eq(self.val, v))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else V.mkbool(tm.not_(V.bterm(r)))

    def strip(self, *a):
        return self

    rstrip = lstrip = strip

    def conc(self, limit=None):
        raise Unsupported("native use of a symbolic JSON text")


def _load_plain(s):
    return _json.loads(s, object_pairs_hook=SymDict)


def dumps(x, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True,
          cls=None, indent=None, separators=None, default=None, sort_keys=False, **kw):
    if cls is not None:
        raise Unsupported("custom JSON encoder")
    v = norm(x, default, sort_keys)
    from ..rt import deep_sym
    if not deep_sym(v):
        return _json.dumps(plain(v), ensure_ascii=ensure_ascii, allow_nan=allow_nan,
                           indent=indent, separators=separators)
    return JsonText(copy(v), (separators, indent, ensure_ascii))


def loads(s, **kw):
    if type(s) is JsonText:
        v = copy(s.val)
        hook = kw.pop("object_pairs_hook", None)
        oh = kw.pop("object_hook", None)
        if kw:
            raise Unsupported("json.loads options")
        if hook is not None or oh is not None:
            v = _hook(v, hook, oh)
        return v
    if V.isinstance(s, SymStr):
        raise Unsupported("json.loads of a symbolic text")
    if "object_pairs_hook" not in kw and "object_hook" not in kw:
        kw["object_pairs_hook"] = SymDict
    return _json.loads(s, **kw)


def _hook(v, hook, oh):
    if type(v) is list:
        return [_hook(x, hook, oh) for x in v]
    if type(v) is SymDict:
        items = [(k, _hook(x, hook, oh)) for k, x in v.items()]
        return hook(items) if hook is not None else oh(SymDict(items))
    return v


def dump(x, fp, **kw):
    fp.write(dumps(x, **kw))


def load(fp, **kw):
    return loads(fp.read(), **kw)
