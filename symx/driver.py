"""Explores the jobs of a harness on all cores, replays candidates, writes evidence."""
import argparse
import atexit
import collections
import hashlib
import importlib.util
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import select
import shutil
import subprocess
import sys
import tempfile
import time
import warnings

warnings.simplefilter("ignore", FutureWarning)  # of patterns that are inputs
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = os.environ.get("SYMX_PYPY", "/opt/venv-pypy/bin/python")
NPROC = int(os.environ.get("SYMX_PROCS", "0")) or min(8, os.cpu_count() or 1)


# ------------------------------------------------------------------ worker
def run_items(eng, mod, params, items, limit, want, rnd):
    """Explore a stack of prefixes for `limit` seconds."""
    from . import engine as en
    from . import rt
    from . import symworld as sw
    eng.stats = en.Stats()
    eng.FUEL = params.get("fuel") or getattr(mod, "FUEL", 60000)
    cands, samples, covers = [], [], {}
    t_end = time.time() + limit
    stack = items
    while stack:
        prefix, env = stack.pop()
        holder = {}
        rt.FILES.reset()
        for h in ("set_order", "charname_hook", "yaml_hook", "log"):
            if hasattr(eng, h):
                delattr(eng, h)

        def body():
            holder["w"] = w = sw.SymW(eng)
            mod.body(w, params)

        work, out = eng.run_path(body, prefix, env)
        stack.extend(work)
        w = holder.get("w")
        for c in w.covers if w else ():
            covers[c] = covers.get(c, 0) + 1
        k = out["kind"]
        if k == "ok":
            if len(samples) < want and (len(samples) < 2 or rnd.random() < 0.03):
                try:
                    samples.append({
                        "inputs": sw.inputs_of(eng, eng.env),
                        "obs": [sw.concretize(o, eng.env) for o in eng.obs],
                    })
                except en.PathEnd:
                    pass
        elif k != "infeasible":
            skip = False
            if k == "unsupported":
                u = eng.stats.unsupported
                key = out["msg"][:160]
                u[key] = u.get(key, 0) + 1
                if u[key] > 3:
                    eng.stats.inconclusive += 1
                    skip = True
            if not skip:
                try:
                    ins = sw.inputs_of(eng, out.get("env", eng.env))
                    cands.append({
                        "kind": k, "msg": out.get("msg", ""), "inputs": ins,
                        "caught": list(w.caught)[:5] if w else []})
                except en.PathEnd as ex:
                    eng.incomplete("inputs: %s" % ex)
                    eng.stats.inconclusive += 1
            if len(cands) >= 20:
                break
        if time.time() > t_end:
            break
    rt.FILES.reset()
    return stack, cands, samples, covers


def worker(conn, name, seed):
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(5000)
    from . import engine as en
    from . import loader
    mod = loader.HARNESS[name]
    eng = en.Engine()
    en.CUR = eng
    rnd = random.Random(seed)
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        jid, params, items, limit, want = msg
        left, cands, samples, covers = run_items(eng, mod, params, items, limit, want, rnd)
        conn.send((jid, eng.stats, left, cands, samples, covers))


# ------------------------------------------------------------------ replay
class Replayer:
    def __init__(self, harness):
        self.harness = harness
        self.p = None
        self.n = 0

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        self.p = subprocess.Popen(
            [PYPY, os.path.join(HERE, "symx", "replay_server.py")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env, text=True)

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def run(self, params, inputs, timeout=20):
        if self.p is None:
            self.start()
            timeout += 30
        req = {"harness": self.harness, "params": params, "inputs": inputs}
        self.n += 1
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            self.stop()
            return {"fails": [], "exc": "replay process died", "skip": False,
                    "obs": [], "broken": True}
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.stop()
            return {"fails": ["does not terminate (no answer in %d s)" % timeout],
                    "exc": None, "skip": False, "obs": [], "hang": True}
        line = self.p.stdout.readline()
        if not line:
            self.stop()
            return {"fails": ["interpreter crashed"], "exc": None, "skip": False,
                    "obs": [], "broken": True}
        return json.loads(line)


# ------------------------------------------------------------------ main
def native_harness(name):
    path = os.path.join(HERE, "harness", name + ".py")
    sys.path.insert(0, os.path.join(HERE, "harness"))
    spec = importlib.util.spec_from_file_location("nat_" + name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["known"] if os.path.exists(p) else []


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", help="only jobs whose JSON contains this text")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    tmp = os.environ["SYMX_TMP"] = tempfile.mkdtemp(prefix="symx-")
    atexit.register(shutil.rmtree, tmp, True)
    pid = a.property
    name = pid.lower()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    nat = native_harness(name)
    jobs = nat.jobs(tier)
    if a.jobs:
        jobs = [j for j in jobs if a.jobs in json.dumps(j)]
    budget = a.budget or getattr(nat, "BUDGET", {}).get(tier) or (
        100 if tier == "quick" else 1500)
    strict = bool(os.environ.get("SYMX_STRICT"))

    from . import engine as en
    from . import loader
    loader.install()
    sys.setrecursionlimit(5000)
    loader.preload(name)

    total = en.Stats()
    byjob = [en.Stats() for _ in jobs]
    covers, samples, cands_seen = {}, [], set()
    violations, inconclusive_msgs, mismatches, known_hit = [], {}, [], []
    known = [k for k in known_findings() if k["property"] == pid]
    rep = Replayer(name)
    rnd = random.Random(seed)

    # work queue: one deque per job, served round robin
    pend = [collections.deque() for _ in jobs]
    for j in range(len(jobs)):
        pend[j].append(([], {}))
    inflight = [0] * len(jobs)
    want_total = getattr(nat, "SAMPLES", 240 if tier == "quick" else 1200)
    want_job = max(2, want_total // max(1, len(jobs)))
    got_job = [0] * len(jobs)
    ctx = mp.get_context("fork")
    procs, conns, busy = [], [], {}
    for i in range(NPROC):
        c1, c2 = ctx.Pipe()
        p = ctx.Process(target=worker, args=(c2, name, seed * 1000 + i), daemon=True)
        p.start()
        c2.close()
        procs.append(p)
        conns.append(c1)
    idle = list(range(NPROC))
    rr = 0
    stop = False
    crashed = 0

    def next_item():
        nonlocal rr
        n = len(jobs)
        for d in range(n):
            j = (rr + d) % n
            if pend[j]:
                rr = (j + 1) % n
                return j
        return None

    while True:
        while idle and not stop:
            j = next_item()
            if j is None:
                break
            q = pend[j]
            # a share of the queue of this job, oldest (shallowest) first
            k = 1 if len(q) < 2 * NPROC else min(len(q) // NPROC, 64)
            items = [q.popleft() for _ in range(k)]
            items.reverse()
            i = idle.pop()
            busy[i] = j
            inflight[j] += 1
            few = sum(map(len, pend)) < NPROC
            limit = 0.3 if few else 1.5
            want = max(0, min(4, want_job - got_job[j]))
            conns[i].send((j, jobs[j], items, limit, want))
        if not busy:
            break
        left_t = t0 + budget - time.time()
        if left_t <= 0:
            stop = True
        ready = mpc.wait([conns[i] for i in busy], timeout=max(0.05, min(left_t, 5)) if left_t > 0 else 30)
        if not ready and stop:
            break
        for c in ready:
            i = conns.index(c)
            j = busy.pop(i)
            inflight[j] -= 1
            try:
                jid, st, left, cands, samp, cov = c.recv()
            except EOFError:
                crashed += 1
                if crashed > 20:
                    stop = True
                c1, c2 = ctx.Pipe()
                p = ctx.Process(target=worker, args=(c2, name, seed * 1000 + 100 + crashed), daemon=True)
                p.start()
                c2.close()
                procs[i], conns[i] = p, c1
                idle.append(i)
                total.inconclusive += 1
                total.unsupported["worker process died"] = total.unsupported.get("worker process died", 0) + 1
                continue
            idle.append(i)
            total.merge(st)
            byjob[jid].merge(st)
            pend[jid].extend(left)
            for k, v in cov.items():
                covers[k] = covers.get(k, 0) + v
            for s in samp:
                s["job"] = jid
                samples.append(s)
                got_job[jid] += 1
            for cand in cands:
                key = json.dumps([jid, cand["inputs"]], sort_keys=True)
                if key in cands_seen:
                    continue
                cands_seen.add(key)
                if stop:
                    continue
                r = rep.run(jobs[jid], cand["inputs"])
                failed = (r["fails"] or r["exc"]) and not r["skip"]
                if failed:
                    v = {"job": jobs[jid], "inputs": cand["inputs"],
                         "fails": r["fails"], "exc": r["exc"], "kind": cand["kind"],
                         "symbolic": cand["msg"]}
                    kf = next((k for k in known if matches(k, v)), None)
                    if kf is not None:
                        if kf not in known_hit:
                            known_hit.append(kf)
                        continue
                    violations.append(v)
                    if a.v:
                        print("CAND", json.dumps(v)[:1500])
                    stop = True
                else:
                    # not reproduced: native limits of the executor, or a bug in it
                    total.inconclusive += 1
                    m = cand["kind"] + ": " + cand["msg"][:120]
                    if cand["caught"]:
                        m += " / " + cand["caught"][-1][:120]
                    inconclusive_msgs[m] = inconclusive_msgs.get(m, 0) + 1
                    if cand["kind"] in ("violation",):
                        mismatches.append({"inputs": cand["inputs"], "job": jobs[jid],
                                           "msg": m, "skip": r["skip"]})
        if stop and not busy:
            break
        if stop and violations:
            break
    unexplored = sum(map(len, pend)) + sum(inflight)
    for p in procs:
        p.kill()

    # validation of the symbolic semantics on sampled paths
    validated = 0
    if not violations:
        rnd.shuffle(samples)
        t1 = time.time()
        for s in samples[:want_total]:
            if time.time() - t1 > (12 if tier == "quick" else 200):
                break
            r = rep.run(jobs[s["job"]], s["inputs"])
            if r["skip"]:
                mismatches.append({"inputs": s["inputs"], "job": jobs[s["job"]],
                                   "msg": "assumption does not hold concretely"})
            elif r["fails"] or r["exc"]:
                v = {"job": jobs[s["job"]], "inputs": s["inputs"], "fails": r["fails"],
                     "exc": r["exc"], "kind": "concrete", "symbolic": "path held symbolically"}
                if not any(matches(k, v) for k in known):
                    violations.append(v)
                    break
            elif r["obs"] != s["obs"]:
                mismatches.append({"inputs": s["inputs"], "job": jobs[s["job"]],
                                   "msg": "observations differ",
                                   "predicted": s["obs"], "actual": r["obs"]})
            else:
                validated += 1
    rep.stop()
    exhaustive = (not unexplored and not violations and not total.inconclusive
                  and not total.unknown and not total.unsupported)
    wall = time.time() - t0

    # evidence
    meta = nat.META
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total.done, "transitions": total.branches,
            "traces_validated_against_impl": validated,
            "samples": [
                {"params": jobs[s["job"]], "inputs": s["inputs"], "observed": s["obs"]}
                for s in samples[:4]
            ] or [{"note": "no completed path sampled"}],
            "exhaustive": exhaustive,
            "states_meaning": "completed symbolic execution paths (each stands for all inputs satisfying its path condition)",
            "transitions_meaning": "symbolic branches decided by the solver (both sides)",
            "paths_started": total.paths, "paths_infeasible": total.infeasible,
            "paths_reaching_assertions": total.reached,
            "assertions": total.checks,
            "assertion_queries_to_solver": total.solver_checks,
            "paths_with_assertions_discharged": total.discharged,
            "solver_queries": total.queries, "solver_unknown": total.unknown,
            "solver_seconds": round(total.solver_s, 2),
            "max_decisions_on_a_path": total.maxdepth,
            "inconclusive_paths": total.inconclusive,
            "inconclusive_reasons": dict(list(inconclusive_msgs.items())[:10]),
            "unsupported": dict(list(total.unsupported.items())[:10]),
            "unexplored_prefixes": unexplored,
            "replays_on_real_code": rep.n,
            "model_mismatches": len(mismatches),
            "functions_encoded": sorted(total.funcs),
            "covered_labels": covers,
            "jobs": [{"params": j, "paths": b.done, "queries": b.queries}
                     for j, b in list(zip(jobs, byjob))[:40]],
            "job_count": len(jobs),
            "jobs_without_assertions": sum(not b.reached for b in byjob),
            "bounds": meta["bounds"] if isinstance(meta["bounds"], str) else meta["bounds"][tier],
            "outside_bounds": meta.get("outside", ""),
            "stubs": meta.get("stubs", ""),
            "solver": "z3 %s" % _z3v(),
        },
        "assumptions": meta.get("assumptions", []) + [
            "the instrumented source behaves as the original (checked on the validated traces)"],
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        txt = json.dumps(ev, indent=1, ensure_ascii=True)
        if len(txt) > 60000:
            ev["coverage"]["jobs"] = ev["coverage"]["jobs"][:5]
            ev["coverage"]["samples"] = ev["coverage"]["samples"][:1]
            txt = json.dumps(ev, indent=1, ensure_ascii=True)
        if len(txt) > 60000:
            ev["coverage"]["samples"] = [str(ev["coverage"]["samples"])[:2000]]
            ev["coverage"]["jobs"] = []
            txt = json.dumps(ev, indent=1, ensure_ascii=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            f.write(txt)
    print("%s %s: %d paths (%d infeasible), %d branches, %d queries (%.1f s), "
          "%d/%d assertions via solver, validated %d, inconclusive %d, unexplored %d, "
          "exhaustive=%s, %.1f s" % (
              pid, tier, total.done, total.infeasible, total.branches, total.queries,
              total.solver_s, total.solver_checks, total.checks, validated,
              total.inconclusive, unexplored, exhaustive, wall))
    if a.v or strict:
        print("covers", covers)
        for k, v in total.unsupported.items():
            print("  unsupported", v, k)
        for k, v in inconclusive_msgs.items():
            print("  inconclusive", v, k)
        for b, j in sorted(zip(byjob, jobs), key=lambda x: -x[0].paths)[:12]:
            print("  job", json.dumps(j)[:100], b.paths, "paths", b.queries, "queries")
        vacuous = [j for b, j in zip(byjob, jobs) if not b.reached]
        if vacuous:
            print("  %d jobs without assertions, e.g." % len(vacuous), json.dumps(vacuous[:3])[:400])
    for m in mismatches[:3]:
        print("MISMATCH " + json.dumps(m)[:1500])
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violations:
        v = violations[0]
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.json" % (pid, h))
        with open(path, "w") as f:
            json.dump({"harness": name, "params": v["job"], "inputs": v["inputs"],
                       "fails": v["fails"], "exc": v["exc"], "kind": v["kind"],
                       "run": "%s %s/symx/replay_server.py %s" % (PYPY, HERE, path)},
                      f, indent=1)
        print("  params=%s" % json.dumps(v["job"])[:600])
        print("  inputs=%s" % json.dumps(v["inputs"])[:1200])
        print("  fails=%s exc=%s" % (v["fails"][:5], v["exc"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if strict and mismatches:
        return 3
    if total.reached == 0:
        print("no path reached an assertion: no answer")
        return 2
    return 0


def matches(k, v):
    """A known finding is identified by its job parameters and inputs."""
    return k.get("params") == v["job"] and (
        "inputs" not in k or all(v["inputs"].get(n) == x for n, x in k["inputs"].items())
    ) and any(k.get("fails", "") in f for f in (v["fails"] or [v["exc"] or ""]))


def _z3v():
    import z3
    return z3.get_version_string()
