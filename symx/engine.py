"""Path exploration: depth-first, by re-execution, one solver query per new branch."""
import time
import traceback
import z3
from . import terms as tm
from .terms import T


class PathEnd(BaseException):
    """Leaves the program under execution; never caught by it."""


class Infeasible(PathEnd):
    pass


class Unsupported(PathEnd):
    """An operation the executor cannot lift: the path is inconclusive."""


class Fuel(PathEnd):
    """Step limit reached: a candidate for non-termination."""


class Stats:
    def __init__(self):
        self.paths = 0
        self.done = 0
        self.infeasible = 0
        self.branches = 0
        self.queries = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.checks = 0
        self.solver_checks = 0
        self.discharged = 0
        self.unsupported = {}
        self.inconclusive = 0
        self.funcs = {}
        self.reached = 0
        self.maxdepth = 0

    def merge(self, o):
        for k in ("paths", "done", "infeasible", "branches", "queries", "unknown",
                  "solver_s", "checks", "solver_checks", "discharged",
                  "inconclusive", "reached"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.maxdepth = max(self.maxdepth, o.maxdepth)
        for k, v in o.unsupported.items():
            self.unsupported[k] = self.unsupported.get(k, 0) + v
        for k, v in o.funcs.items():
            self.funcs[k] = self.funcs.get(k, 0) + v


CUR = None  # the engine of this process


class Engine:
    FUEL = 60000

    def __init__(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.stack = []  # terms asserted on the solver, one push each
        self.stats = Stats()
        self.active = False
        self._reset([], {})

    # ---- per path state -------------------------------------------------
    def _reset(self, prefix, env):
        self.prefix = prefix
        self.pos = 0
        self.trail = []  # decisions made: 0/1, 2/3 implied, ('c', i)
        self.env = env
        self.cons = 0  # constraints added on this path
        self.decided = {}
        self.ticks = 0
        self.checks = []
        self.work = []
        self.inputs = {}
        self.obs = []
        self.fresh = 0

    # ---- solver ---------------------------------------------------------
    def _push(self, term):
        k = self.cons
        if k < len(self.stack):
            if self.stack[k] is term:
                self.cons += 1
                return
            n = len(self.stack) - k
            self.solver.pop(n)
            del self.stack[k:]
        self.solver.push()
        self.solver.add(tm.to_z3(term))
        self.stack.append(term)
        self.cons += 1

    def _sync(self):
        n = len(self.stack) - self.cons
        if n:
            self.solver.pop(n)
            del self.stack[self.cons:]

    def query(self, term):
        """Is path condition and term satisfiable?  env, None (unsat) or 'unknown'."""
        self._sync()
        t0 = time.perf_counter()
        self.solver.push()
        self.solver.add(tm.to_z3(term))
        r = self.solver.check()
        out = None
        if r == z3.sat:
            m = self.solver.model()
            out = {}
            for d in m.decls():
                v = m[d]
                out[d.name()] = v.as_long() if z3.is_int(v) else z3.is_true(v)
        elif r == z3.unknown:
            self.stats.unknown += 1
            out = "unknown"
        self.solver.pop()
        self.stats.queries += 1
        self.stats.solver_s += time.perf_counter() - t0
        return out

    # ---- primitives used by symbolic values -------------------------------
    def declare(self, t, *cons):
        if t.op == "var":
            self._push(tm._mk("le", (t.args[1], t), True))
            self._push(tm._mk("le", (t, t.args[2]), True))
        for c in cons:
            if c is not True:
                self._push(c)
        return t

    def tick(self):
        self.ticks += 1
        if self.ticks > self.FUEL:
            raise Fuel("step limit of %d" % self.FUEL)

    def decide(self, cond):
        if type(cond) is not T:
            return bool(cond)
        flip = False
        if cond.op == "not":
            cond = cond.args[0]
            flip = True
        v = self.decided.get(cond)
        if v is None:
            v = self._decide(cond)
            self.decided[cond] = v
        return v != flip

    def _decide(self, cond):
        # simplification by what is already decided
        if cond.op in ("and", "or"):
            unit = cond.op == "and"
            rest = []
            for a in cond.args:
                d = self.decided.get(a)
                if d is None and a.op == "not":
                    d = self.decided.get(a.args[0])
                    if d is not None:
                        d = not d
                if d is None:
                    rest.append(a)
                elif d != unit:
                    return d
            if len(rest) < len(cond.args):
                c2 = tm.and_(*rest) if unit else tm.or_(*rest)
                if c2 is not cond:
                    return self.decide(c2)
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            d = self.prefix[i]
            if type(d) is tuple:
                raise AssertionError("replay diverged")
            self.trail.append(d)
            if d < 2:
                self._push(cond if d else tm.not_(cond))
                return bool(d)
            return d == 3
        v = bool(tm.ev(cond, self.env))
        alt = tm.not_(cond) if v else cond
        r = self.query(alt)
        self.stats.branches += 1
        if r == "unknown":
            self._push(cond if v else tm.not_(cond))
            self.trail.append(1 if v else 0)
            self.incomplete("solver answered unknown")
        elif r is None:
            self.trail.append(3 if v else 2)
        else:
            self.work.append((self.trail + [0 if v else 1], r))
            self._push(cond if v else tm.not_(cond))
            self.trail.append(1 if v else 0)
        return v

    def choose(self, n):
        if n <= 1:
            return 0
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            d = self.prefix[i]
            if type(d) is not tuple:
                raise AssertionError("replay diverged")
            self.trail.append(d)
            return d[1]
        for k in range(n - 1, 0, -1):
            self.work.append((self.trail + [("c", k)], self.env))
        self.trail.append(("c", 0))
        return 0

    def assume(self, cond):
        if type(cond) is not T:
            if not cond:
                raise Infeasible()
            return
        if tm.ev(cond, self.env):
            self._push(cond)
            self._mark(cond)
            return
        r = self.query(cond)
        if r is None:
            raise Infeasible()
        if r == "unknown":
            raise Unsupported("solver unknown in assume")
        self._push(cond)
        self._mark(cond)
        self.env = r

    def _mark(self, cond):
        if cond.op == "not":
            self.decided[cond.args[0]] = False
        elif cond.op == "and":
            for a in cond.args:
                self._mark(a)
        else:
            self.decided[cond] = True

    def check(self, cond, msg):
        self.checks.append((cond, msg))

    def incomplete(self, why):
        u = self.stats.unsupported
        u[why] = u.get(why, 0) + 1

    def enter(self, name):
        f = self.stats.funcs
        f[name] = f.get(name, 0) + 1
        self.ticks += 1
        if self.ticks > self.FUEL:
            raise Fuel("step limit of %d" % self.FUEL)

    def concretize_int(self, term, limit=256):
        """Fork over the values of an integer term."""
        if type(term) is not T:
            return term
        for _ in range(limit):
            # the candidate is recorded, so that re-execution tries the same one
            i = self.pos
            self.pos += 1
            if i < len(self.prefix):
                v = self.prefix[i][1]
            else:
                v = tm.ev(term, self.env)
            self.trail.append(("v", v))
            if self.decide(tm.eq(term, v)):
                return v
        raise Unsupported("integer with too many values")

    # ---- exploration ------------------------------------------------------
    def run_path(self, body, prefix, env):
        """Execute one path.  Returns (new work items, outcome dict)."""
        self._reset(prefix, dict(env))
        self.active = True
        self.stats.paths += 1
        st = self.stats
        out = {"kind": "ok"}
        try:
            body()
            st.done += 1
        except Infeasible:
            st.infeasible += 1
            out["kind"] = "infeasible"
        except Unsupported as e:
            out.update(kind="unsupported", msg=str(e) + _where(e))
        except Fuel as e:
            out.update(kind="fuel", msg=str(e))
        except RecursionError as e:
            out.update(kind="fuel", msg="RecursionError")
        except MemoryError:
            raise
        except Exception as e:
            out.update(
                kind="raise",
                msg="%s: %s%s" % (type(e).__name__, _short(e), _where(e)),
            )
        finally:
            self.active = False
        st.maxdepth = max(st.maxdepth, len(self.trail))
        if out["kind"] == "infeasible":
            return self.work, out
        # assertions
        conds = [c for c, _ in self.checks]
        st.checks += len(conds)
        if conds:
            st.reached += 1
        conj = tm.and_(*conds) if conds else True
        bad = None
        if type(conj) is T:
            st.solver_checks += 1
            bad = self.query(tm.not_(conj))
            if bad == "unknown":
                self.incomplete("solver unknown on assertion")
                bad = None
            elif bad is None:
                st.discharged += 1
        elif not conj:
            bad = self.env
        else:
            st.discharged += 1
        if bad is not None:
            # full model: env of the path completed by the query's model
            e = dict(self.env)
            e.update(bad)
            msg = next(
                (m for c, m in self.checks if not tm.ev(c, e)), "assertion"
            )
            out.update(kind="violation", msg=msg, env=e)
        else:
            out["env"] = self.env
        return self.work, out


def _short(e):
    try:
        s = str(e)
    except BaseException:
        s = "?"
    return s[:200]


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    if not tb:
        return ""
    f = [x for x in tb if "/symx/" not in x.filename] or tb
    l = f[-1]
    return " @%s:%s" % (l.filename.rsplit("/", 1)[-1], l.lineno)
