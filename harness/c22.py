from hlib import *
from c01 import branches

META = {
    "bounds": {
        "quick": "7 configurations of 1-4 rules and 0-3 on-match rules (contexts, shared prefixes, several leaves at a node, never-applicable and equal on-match rules), every history of 1-2 transliterations of <=3-4 symbolic characters each and of 3 of <=2 (with or without unknown characters, errors ignored or not) with a reset, a failed check, a dump or a pruning in between; the same with a symbolic rule and a symbolic on-match rule; verdict against a trace computed from the settings; a configuration with 42 rules and 14 on-match rules after all but one of 30 texts that together apply everything, then every text of 1 character; every output and error compared with the plain transliterator's; matches of 3 rules for beginnings of the same text, of 1-4 tokens and 0-2 previous classes that fit or not, in any combination",
        "thorough": "3 transliterations, inputs of <=5 characters",
    },
    "outside": "more rules; transliterators without rules (their start node is only visited by transliterating something)",
    "stubs": "logging is a no-op",
}
BUDGET = {"quick": 90, "thorough": 2400}
WS = {"default": " ", "token_class": "w", "consolidate": False}
T = {"a": ["x"], "b": ["y"], " ": ["w"]}
A, B, S = ({"production": p, "tokens": [t]} for p, t in (("A", "a"), ("B", "b"), ("_", " ")))


def om(p, n, out):
    return {"prev_classes": p, "next_classes": n, "production": out}


CONFIGS = {
    "one": {"tokens": T, "whitespace": WS, "rules": [A]},
    "om": {"tokens": T, "whitespace": WS, "rules": [A, B],
           "onmatch_rules": [om(["x"], ["y"], ","), om(["y"], ["x"], ";")]},
    "shadow": {"tokens": T, "whitespace": WS, "rules": [A],
               "onmatch_rules": [om(["w"], ["x"], ","), om(["x"], ["x", "w"], ";"), om(["x"], ["x"], ".")]},
    "om1": {"tokens": T, "whitespace": WS, "rules": [A, S],
            "onmatch_rules": [om(["x"], ["x"], ",")]},
    "ctx": {"tokens": T, "whitespace": WS, "rules": [
        A, B, {"production": "(a)b", "tokens": ["b"], "prev_tokens": ["a"]},
        {"production": "aa", "tokens": ["a", "a"]}]},
    "leaves": {"tokens": T, "whitespace": dict(WS, consolidate=True), "rules": [
        {"production": "a1", "tokens": ["a"], "prev_classes": ["y"], "next_classes": ["y"]},
        {"production": "a2", "tokens": ["a"], "prev_classes": ["w"]},
        {"production": "ab", "tokens": ["a", "b"]}, B],
        "onmatch_rules": [om(["x"], ["x"], ",")]},
}
# equal on-match rules, of which only the first of each is applied
CONFIGS["twice"] = {"tokens": T, "whitespace": WS, "rules": [A, B], "onmatch_rules": [
    om(["x"], ["x"], ","), om(["y"], ["x"], ";"), om(["x"], ["x"], ",")]}
BETWEEN = ["nothing", "reset", "check", "dump", "prune"]


def jobs(tier):
    big = tier == "thorough"
    out = []
    for c in CONFIGS:
        if c == "twice":
            continue
        for n in (1, 2, 3, 4, 5) if big else (1, 2, 3, 4):
            out.append({"config": c, "ns": [n]})
        for b in BETWEEN:
            out.append({"config": c, "ns": [2, 2], "between": b})
            if b != "reset":
                out.append({"config": c, "ns": [], "between": b})
        out.append({"config": c, "ns": [2, 0, 2], "between": ["nothing", "reset"]})
        out.append({"config": c, "ns": [2, 1, 2], "between": ["nothing", "reset"]})
        out.append({"config": c, "ns": [2, 1, 2], "between": ["reset", "nothing"]})
        if big:
            out.append({"config": c, "ns": [2, 1, 2], "between": "reset"})
            out.append({"config": c, "ns": [2, 2, 2], "between": ["reset", "reset"]})
            out.append({"config": c, "ns": [3, 2], "between": "reset"})
    for ns in ([], [2], [3], [2, 2]):
        out.append({"config": "twice", "ns": ns, "between": "nothing"})
    for sh in shapes(3, max_tok=2):
        out.append({"shape": list(sh), "om": [1, 1], "ns": [2]})
    out.append({"shape": [0, 0, 1, 0, 0], "om": [2, 1], "ns": [3]})
    out.append({"many": 1, "ns": [1]})
    out.append({"shape": [0, 0, 1, 0, 0], "om": [1, 2], "ns": [3]})
    for first in range(1, 5):
        out.append({"branches": 3, "first": first, "max": 3 if big else 2})
    return out


def same_matches(W, P):
    """Coverage tracking matches as a plain transliterator does (C01's rules for
    beginnings of the same text)."""
    from graphtransliterator import CoverageTransliterator, GraphTransliterator, WhitespaceRules

    rules, class_of, by_class, toks, i = branches(W, P)
    got = []
    for cls in (GraphTransliterator, CoverageTransliterator):
        gt = cls(class_of, [ruleobj(r, "P%d" % k) for k, r in enumerate(rules)], WhitespaceRules(" ", "w", False),
                 tokens_by_class=by_class, check_ambiguity=False)
        got.append([gt.match_at(i, toks), gt.match_at(i, toks, match_all=True)])
    W.observe(got)
    W.check(got[0] == got[1], "matches otherwise than without coverage tracking")
    W.cover("branches")


TEXTS = ([t + "a" for t in "abcdefghijkl"] + ["b" + t for t in "abcdefghijkl"]
         + ["dea", "ab", "abcdef", "_", LONG, "m"])


def trace(s, toks, ign, seen):
    """Adds what happens for these tokens to `seen`: positions matched at,
    rules applied, on-match rules applied."""
    i = 1
    while i < len(toks) - 1:
        seen["at"].append((toks, i))
        for k, r in enumerate(s["sorted"]):
            if spec_fits(r, toks, i, s["tokens"]):
                break
        else:
            if not ign:
                return
            i += 1
            continue
        seen["rules"].add(k)
        last = None  # none after the one that applies is tried
        for j, o in enumerate(s.get("onmatch_rules") or []):
            if spec_fits({"prev_classes": o["prev_classes"], "next_classes": o["next_classes"]},
                         toks, i, s["tokens"]):
                seen["om"].add(j)
                last = j
                break
        seen["positions"].append((toks, i, last))
        i += len(r["tokens"])


def between(W, gt, b):
    """Operations that apply no rule of this transliterator."""
    if b == "check":
        W.run(gt.check_coverage)
    elif b == "dump":
        gt.dump()
        gt.dumps()
    elif b == "prune":
        other = gt.pruned_of("no such production")
        W.run(other.transliterate, "aab aba b")


def body(W, P):
    from graphtransliterator import CoverageTransliterator

    if "branches" in P:
        return same_matches(W, P)
    if "many" in P:
        s = cp(MANY)
    elif "config" in P:
        s = cp(CONFIGS[P["config"]])
    else:
        r = symrule(W, "r", tuple(P["shape"]), "ab", "xy")
        m, n = P["om"]
        s = {"tokens": T, "whitespace": WS, "rules": [ruledict(r, "P"), B],
             "onmatch_rules": [om([W.char("p%d" % k, "xy") for k in range(m)],
                                  [W.char("n%d" % k, "xy") for k in range(n)], "!")]}
    s["sorted"] = spec_rules(s)
    ign = True if "many" in P else W.flag("ignore")
    gt = direct(s, cls=CoverageTransliterator, ignore_errors=ign)
    plain = direct(s, ignore_errors=ign)
    seen = {"at": [], "rules": set(), "om": set(), "positions": []}
    if "many" in P:
        # all but one of texts that together apply everything
        k = W.choose("left out", len(TEXTS) + 1)
        for t in TEXTS[:k] + TEXTS[k + 1:]:
            gt.transliterate(t)
            trace(s, spec_tokens(s["tokens"], s["whitespace"], t, ign), ign, seen)
    if not P["ns"]:
        between(W, gt, P["between"])
    for h, n in enumerate(P["ns"]):
        if h and "between" in P:
            b = P["between"]
            if isinstance(b, list):
                b = b[h - 1]
            if b == "reset":
                gt.clear_visited()
                seen = {"at": [], "rules": set(), "om": set(), "positions": []}
            else:
                between(W, gt, b)
        t = W.string("s%d" % h, n, "ab l?" if n < 3 else "ab ")
        r1, r2 = W.run(gt.transliterate, t), W.run(plain.transliterate, t)
        W.observe(list(r1))
        W.check(W.eq(list(r1), list(r2)), "another result than without coverage tracking")
        toks = spec_tokens(s["tokens"], s["whitespace"], t, ign)
        if toks is not None:
            trace(s, toks, ign, seen)
    kind, v = W.run(gt.check_coverage)
    soft = gt.check_coverage(raise_exception=False)
    W.observe([kind, v, soft])
    W.check(isinstance(soft, bool), "the verdict is not a truth value")
    passed = kind == "ok" and v
    W.check(passed == soft, "the two forms of the check disagree")
    W.check(kind == "exc" or v, "the raising form returned a false verdict")
    if kind == "exc":
        W.check(v in ("IncompleteGraphCoverageException", "IncompleteOnMatchRulesCoverageException"),
                "another error")
    oms = s.get("onmatch_rules") or []
    if len(seen["rules"]) == len(s["rules"]) and len(seen["om"]) == len(oms):
        W.cover("everything applied")
        W.check(passed, "fails although everything was applied")
    if passed:
        W.cover("passes")
        for r in s["rules"]:
            n = len(r["tokens"])
            W.check(W.Or(*[W.eq(toks[i:i + n], r["tokens"]) for toks, i in seen["at"]]),
                    "passes although the tokens of a rule never occurred")
        for j, o in enumerate(oms):
            W.check(W.Or(*[W.And(W.isin(o["prev_classes"][-1], s["tokens"][toks[i - 1]]),
                                 W.isin(o["next_classes"][0], s["tokens"][toks[i]]))
                           for toks, i, last in seen["positions"] if last is None or j <= last]),
                    "passes although an on-match rule was never tried")
    gt.clear_visited()
    W.check(not gt.check_coverage(raise_exception=False), "visits survive a reset")
