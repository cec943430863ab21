"""Interned first-order terms (integers and Booleans) and their translation to z3.

Python ints/bools are used directly as constants.  Everything else is a `T`."""
import z3

_table = {}


class T:
    __slots__ = ("op", "args", "z", "isbool", "vars")

    def __repr__(self):
        if self.op in ("var", "bvar"):
            return self.args[0]
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


def _mk(op, args, isbool):
    key = (op,) + tuple(
        (id(a),) if type(a) is T else (None, a, type(a) is bool) for a in args
    )
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.isbool, t.z = op, args, isbool, None
        if op in ("var", "bvar"):
            t.vars = frozenset((t,))
        else:
            t.vars = frozenset().union(*[a.vars for a in args if type(a) is T])
        _table[key] = t
    return t


def var(name, lo, hi):
    return _mk("var", (name, lo, hi), False)


def bvar(name):
    return _mk("bvar", (name,), True)


def _rng(a):
    if type(a) is T:
        if a.op == "var":
            return a.args[1], a.args[2]
        return None
    return a, a


def eq(a, b):
    if type(a) is not T and type(b) is not T:
        return a == b
    if a is b:
        return True
    if type(a) is not T:
        a, b = b, a
    ra, rb = _rng(a), _rng(b)
    if ra and rb and (ra[1] < rb[0] or rb[1] < ra[0]):
        return False
    if type(b) is T and id(b) < id(a):
        a, b = b, a
    return _mk("eq", (a, b), True)


def le(a, b):
    if type(a) is not T and type(b) is not T:
        return a <= b
    if a is b:
        return True
    ra, rb = _rng(a), _rng(b)
    if ra and rb:
        if ra[1] <= rb[0]:
            return True
        if ra[0] > rb[1]:
            return False
    return _mk("le", (a, b), True)


def lt(a, b):
    return not_(le(b, a))


def add(a, b):
    if type(a) is not T and type(b) is not T:
        return a + b
    if type(a) is not T and a == 0:
        return b
    if type(b) is not T and b == 0:
        return a
    return _mk("add", (a, b), False)


def mul(a, b):
    if type(a) is not T and type(b) is not T:
        return a * b
    return _mk("mul", (a, b), False)


def neg(a):
    return mul(-1, a)


def not_(a):
    if type(a) is not T:
        return not a
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), True)


def _flat(op, xs, unit):
    out, seen = [], set()
    for x in xs:
        if type(x) is not T:
            if bool(x) != unit:
                return None
            continue
        for y in x.args if x.op == op else (x,):
            if id(y) not in seen:
                seen.add(id(y))
                out.append(y)
    for y in out:
        if y.op == "not" and id(y.args[0]) in seen:
            return None
    return out


def and_(*xs):
    out = _flat("and", xs, True)
    if out is None:
        return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out), True)


def or_(*xs):
    out = _flat("or", xs, False)
    if out is None:
        return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out), True)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if type(a) is not T:
        return b if a else not_(b)
    if type(b) is not T:
        return a if b else not_(a)
    if a is b:
        return True
    return _mk("iff", (a, b), True)


def between(lo, x, hi):
    return and_(le(lo, x), le(x, hi))


def ev(t, env):
    """Evaluate under env: dict T(var) -> int/bool."""
    if type(t) is not T:
        return t
    op = t.op
    a = t.args
    if op == "var":
        v = env.get(a[0])
        return a[1] if v is None else v
    if op == "bvar":
        return env.get(a[0], False)
    if op == "eq":
        return ev(a[0], env) == ev(a[1], env)
    if op == "le":
        return ev(a[0], env) <= ev(a[1], env)
    if op == "not":
        return not ev(a[0], env)
    if op == "and":
        for x in a:
            if not ev(x, env):
                return False
        return True
    if op == "or":
        for x in a:
            if ev(x, env):
                return True
        return False
    if op == "iff":
        return bool(ev(a[0], env)) == bool(ev(a[1], env))
    if op == "add":
        return ev(a[0], env) + ev(a[1], env)
    if op == "mul":
        return ev(a[0], env) * ev(a[1], env)
    raise AssertionError(op)


def to_z3(t):
    if type(t) is not T:
        return z3.BoolVal(t) if type(t) is bool else z3.IntVal(t)
    z = t.z
    if z is not None:
        return z
    op, a = t.op, t.args
    if op == "var":
        z = z3.Int(a[0])
    elif op == "bvar":
        z = z3.Bool(a[0])
    else:
        k = [to_z3(x) for x in a]
        if op == "eq":
            z = k[0] == k[1]
        elif op == "le":
            z = k[0] <= k[1]
        elif op == "not":
            z = z3.Not(k[0])
        elif op == "and":
            z = z3.And(*k)
        elif op == "or":
            z = z3.Or(*k)
        elif op == "iff":
            z = k[0] == k[1]
        elif op == "add":
            z = k[0] + k[1]
        elif op == "mul":
            z = k[0] * k[1]
        else:
            raise AssertionError(op)
    t.z = z
    return z
