"""SymW: the symbolic version of the harness interface."""
from . import engine as en
from . import rt
from . import terms as tm
from . import values as V
from .values import (GuardedSet, SymBool, SymDict, SymInt, SymSet, SymStr, bterm,
                     mkbool, mkstr)

MAXC = 0x10FFFF


class SymW:
    symbolic = True

    def __init__(self, eng):
        self.e = eng
        self.covers = []
        self.caught = []

    def _reg(self, name, v):
        if name in self.e.inputs:
            raise AssertionError("input %s declared twice" % name)
        self.e.inputs[name] = v

    # ---- inputs
    def choose(self, name, options):
        if type(options) is int:
            options = range(options)
        i = self.e.choose(len(options))
        self._reg(name, i)
        return options[i]

    def flag(self, name):
        return bool(self.choose(name, 2))

    def char(self, name, alphabet=None):
        return self.string(name, 1, alphabet)

    def string(self, name, n, alphabet=None):
        cs = []
        for i in range(n):
            nm = "%s.%d" % (name, i)
            if alphabet is None:
                t = tm.var(nm, 0, MAXC)
                self.e.declare(t, tm.not_(tm.between(0xD800, t, 0xDFFF)))
            else:
                codes = sorted(set(map(ord, alphabet)))
                if len(codes) == 1:
                    t = codes[0]
                else:
                    t = tm.var(nm, codes[0], codes[-1])
                    c = V.in_set(t, codes)
                    self.e.declare(t, c)
            cs.append(t)
        # free variables default to the lower bound; make that a legal value
        if alphabet is None or True:
            for t in cs:
                if type(t) is tm.T and t.args[0] not in self.e.env:
                    self.e.env[t.args[0]] = t.args[1]
        s = mkstr(cs)
        self._reg(name, s)
        return s

    def int(self, name, lo, hi):
        t = tm.var(name, lo, hi)
        self.e.declare(t)
        s = SymInt(t)
        self._reg(name, s)
        return s

    def subset(self, name, universe):
        g = {}
        for k, u in enumerate(universe):
            b = tm.bvar("%s.%s" % (name, k))
            g[u] = b
        s = GuardedSet(g)
        self._reg(name, s)
        return GuardedSet(g)

    def relation(self, name, rows, cols, fixed=None):
        fixed = fixed or {}
        g = {(r, c): tm.bvar("%s.%d.%d" % (name, i, j))
             for i, r in enumerate(rows) for j, c in enumerate(cols)}
        self._reg(name, GuardedSet(g))
        allc = list(cols) + [c for r in rows for c in fixed.get(r, ()) if c not in cols]
        for r in rows:
            for c in fixed.get(r, ()):
                g[(r, c)] = True
        fwd = SymDict()
        for r in rows:
            fwd[r] = GuardedSet({c: g.get((r, c), False) for c in allc})
        bwd = SymDict()
        for c in allc:
            bwd[c] = GuardedSet({r: g.get((r, c), False) for r in rows})
        return fwd, bwd

    # ---- formulas
    def assume(self, c):
        self.e.assume(bterm(c))

    def check(self, c, msg=""):
        self.e.check(bterm(c), msg)

    def And(self, *xs):
        return mkbool(tm.and_(*[bterm(x) for x in xs]))

    def Or(self, *xs):
        return mkbool(tm.or_(*[bterm(x) for x in xs]))

    def Not(self, x):
        return mkbool(tm.not_(bterm(x)))

    def Implies(self, a, b):
        return mkbool(tm.implies(bterm(a), bterm(b)))

    def Iff(self, a, b):
        return mkbool(tm.iff(bterm(a), bterm(b)))

    def eq(self, a, b):
        return mkbool(eq_term(a, b))

    def isin(self, x, c):
        return rt.sym_in(x, c)

    def observe(self, x):
        self.e.obs.append(x)

    def cover(self, label):
        self.covers.append(label)

    def run(self, f, *a, **k):
        try:
            return ("ok", f(*a, **k))
        except RecursionError:
            raise
        except Exception as e:
            self.caught.append("%s: %s%s" % (type(e).__name__, en._short(e), en._where(e)))
            return ("exc", type(e).__name__)

    def on_yaml(self, f):
        self.e.yaml_hook = f

    def set_order(self, f):
        """Sets of the package iterate in the order f gives (f takes and
        returns a list; None: the usual order)."""
        self.e.set_order = None if f is None else lambda s: f(list(s._iter()))

    def cli(self, args):
        """Run the real command line: click parses the arguments, symbolic
        ones being placeholders there and put back when a command is called."""
        import click
        import sys
        mod = sys.modules["graphtransliterator.cli"]
        table, native = {}, []
        for k, a in enumerate(args):
            if type(a) is str:
                native.append(a)
            else:
                ph = "\ue000%d\ue001" % k
                table[ph] = a
                native.append(ph)
        printed = Printed()
        for c in mod.main.commands.values():
            if not hasattr(c, "symx_callback"):
                c.symx_callback = c.callback
            c.callback = _putting_back(c.symx_callback, table)
        def echo(message=None, file=None, nl=True, err=False, color=None):
            if not err:
                printed.append(("" if message is None else message, nl))
        click.echo = echo
        try:
            mod.main.main(args=native, prog_name="gt", standalone_mode=False)
            return ("ok", printed)
        except RecursionError:
            raise
        except Exception as e:
            self.caught.append("%s: %s%s" % (type(e).__name__, en._short(e), en._where(e)))
            return ("exc", type(e).__name__)
        except SystemExit as e:
            return ("exc", "SystemExit")

    def prints(self, printed, value):
        """Formula: exactly this value was printed, as Python text."""
        m = self._printed(printed)
        if V.chars(value) is not None:
            if V.chars(m) is None and not V.isinstance(m, SymStr):
                return False
            return self.eq(m, value)
        if V.isinstance(m, (str, SymStr)):
            return self.eq(m, rt.sym_repr(value))
        return self.eq(m, value)

    def printed_json(self, printed):
        """The value printed as JSON."""
        from .shims import json_
        return json_.loads(self._printed(printed))

    def printed_text(self, printed):
        return self._printed(printed)

    def _printed(self, printed):
        if len(printed) == 1 and printed[0][1]:
            return printed[0][0]
        if not printed:
            return ""
        return V.lift("\n").join([rt.sym_str(m) for m, nl in printed])

    def virtual_file(self, path, text):
        return rt.FILES.create(path, text)

    def logged(self):
        """Messages of level warning and above since the last call (the first
        call starts recording)."""
        from . import engine as en
        log = getattr(en.CUR, "log", None) or []
        en.CUR.log = []
        out = []
        for m, a in log:
            try:
                if a:
                    m = rt.sym_mod(m, a[0] if len(a) == 1 and isinstance(a[0], dict) else tuple(a))
                else:
                    m = rt.sym_str(m)
                len(m)  # (messages are formatted when needed)
                out.append(m)
            except (TypeError, ValueError, KeyError, IndexError):
                out.append(None)
        return out

    def read_file(self, path):
        return rt.FILES.contents(path)


class Printed(list):
    pass


def _putting_back(f, table):
    def put(x):
        if type(x) is str:
            return table.get(x, x)
        if type(x) in (tuple, list):
            return type(x)([put(y) for y in x])
        return x

    def callback(*a, **k):
        return f(*[put(x) for x in a], **{n: put(x) for n, x in k.items()})

    return callback


def eq_term(a, b):
    """Deep equality as a term, without forking where possible."""
    if a is b:
        return True
    if V.isinstance(a, (list, tuple)) and V.isinstance(b, (list, tuple)):
        if V.isinstance(a, list) != V.isinstance(b, list):
            return False
        if len(a) != len(b):
            return False
        return tm.and_(*[eq_term(x, y) for x, y in zip(a, b)])
    if V.isinstance(a, (SymDict, dict)) and V.isinstance(b, (SymDict, dict)):
        if len(a) != len(b):
            return False
        ka, kb = list(a.items()), list(b.items())
        if all(V.is_sym(k) is False for k, _ in ka + kb):
            out = []
            for k, v in ka:
                if k not in b:
                    return False
                out.append(eq_term(v, b[k]))
            return tm.and_(*out)
        out = []
        for k, v in ka:
            out.append(tm.or_(*[
                tm.and_(V.key_eq(k, k2), eq_term(v, v2)) for k2, v2 in kb]))
        return tm.and_(*out)
    if V.isinstance(a, (SymSet, set)) and V.isinstance(b, (SymSet, set)):
        la, lb = list(_raw(a)), list(_raw(b))
        if len(la) != len(lb):
            return False
        return tm.and_(*[
            tm.or_(*[V.bterm(V.key_eq(x, y)) for y in lb]) for x in la])
    r = a == b
    if r is NotImplemented:
        return False
    return bterm(r)


def _raw(s):
    return s._iter() if V.isinstance(s, SymSet) else s


def concretize(x, env):
    """Value of x under a model, JSON-able like world.norm."""
    t = type(x)
    if x is None or t in (bool, int, float, str):
        return x
    if V.isinstance(x, SymStr):
        return "".join(chr(tm.ev(c, env)) for c in x.c)
    if t in (SymInt, SymBool):
        return tm.ev(x.t, env)
    if V.isinstance(x, (list, tuple)):
        return [concretize(y, env) for y in x]
    if V.isinstance(x, (SymDict, dict)):
        return {"d": [[concretize(k, env), concretize(v, env)] for k, v in x.items()]}
    if t is GuardedSet:
        return {"s": sorted([concretize(k, env) for k, g in x.g.items() if tm.ev(g, env)],
                            key=str)}
    if V.isinstance(x, (SymSet, set, frozenset)):
        return {"s": sorted([concretize(y, env) for y in _raw(x)], key=str)}
    if V.chars(x) is not None:
        return "".join(map(chr, V.chars(x)))
    return {"o": t.__name__}


def inputs_of(eng, env):
    out = {}
    for n, v in eng.inputs.items():
        if type(v) is GuardedSet:
            out[n] = [list(k) if type(k) is tuple else k
                      for k, g in v.g.items() if tm.ev(g, env)]
        else:
            out[n] = concretize(v, env)
    return out
