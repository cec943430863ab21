from hlib import *
from c16 import notation

META = {
    "bounds": {
        "quick": "settings with 1 rule needing <=4 tokens or 2 rules needing <=2, 0-1 on-match rules with <=2+<=2 classes; every token and class referred to (rules, on-match rules, default whitespace, whitespace class) symbolic, including undefined ones; three variants of the tokens' classes; each required section or field missing in turn; on-match rules and metadata absent, empty or given; ambiguity checked or not; each single reference of a configuration with 42 rules and 14 on-match rules replaced by any of a list of names (defined, undefined, parts of defined ones, several joined, empty); a name of 1-2 and a reference of 1-3 characters of any kind, in each place; from_dict and from_easyreading_dict",
        "thorough": "1 rule needing <=5 tokens, pairs needing <=3, 2 on-match rules",
    },
    "outside": "values of wrong types and unknown sections (C37); bigger settings",
    "stubs": "re: backtracking matcher; logging is a no-op; marshmallow runs instrumented",
}
BUDGET = {"quick": 90, "thorough": 2400}
MISSING = ["tokens", "rules", "whitespace", "whitespace.default", "whitespace.token_class",
           "whitespace.consolidate", "rule.tokens", "rule.production", "onmatch.prev_classes",
           "onmatch.next_classes", "onmatch.production"]
ONE = (0, 0, 1, 0, 0)


def jobs(tier):
    big = tier == "thorough"
    out = []
    for r in ("dict", "easy"):
        for s in shapes(5 if big else 4) if r == "dict" else shapes(4 if big else 3):
            out.append({"shapes": [s], "route": r})
        for om in [(1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2)] if big else []):
            out.append({"shapes": [ONE], "om": [om], "route": r})
        out.append({"shapes": [ONE], "ws": 1, "route": r})
        out.append({"shapes": [], "ws": 1, "route": r})
        out.append({"shapes": [(1, 1, 1, 1, 1)], "route": r})
        for m in MISSING:
            if r == "easy" and m[:2] in ("ru", "on") and m != "rules":
                continue
            out.append({"shapes": [ONE], "om": [(1, 1)], "missing": m, "route": r})
        out.append({"shapes": [ONE], "opt": 1, "route": r})
    sh = shapes(3 if big else 2)
    for a, b in itertools.combinations_with_replacement(sh, 2):
        out.append({"shapes": [a, b], "route": "dict", "check": 1})
    out.append({"many": 1})
    for place in PARTS + ("om.prev_classes", "om.next_classes", "default", "token_class"):
        for n in (1, 2, 3) if big else (1, 2):
            for m in (1, 2, 3):
                if n != 3 or m != 1:
                    out.append({"names": [n, m], "place": place})
    if big:
        out.append({"shapes": [ONE], "om": [(1, 1), (1, 1)], "route": "dict"})
    return out


def many(W):
    """One of the many references may be undefined."""
    from graphtransliterator import GraphTransliterator

    s = fixed({"many": 1})
    places = []
    for r in s["rules"] + s["onmatch_rules"]:
        for p in PARTS:
            for k in range(len(r.get(p) or [])):
                places.append((r, p, k))
    r, p, k = places[W.choose("where", len(places))]
    r[p] = list(r[p])
    # undefined names may be part of defined ones, several of them joined or nothing
    near = sorted(s["tokens"])[-2:] + sorted(set(c for t in s["tokens"] for c in s["tokens"][t]))[:2]
    near = [x for t in near for x in (t[1:], t[:-1], t + t, t.upper())] + [" ".join(near), "", "  "]
    r[p][k] = name = W.choose("name", ["a", "x", "?"] + near)
    names = [c for t in s["tokens"] for c in s["tokens"][t]] if p.endswith("classes") else list(s["tokens"])
    good = name in names
    kind, v = W.run(GraphTransliterator.from_dict, s, check_ambiguity=False)
    W.observe([kind, v if kind == "exc" else None])
    W.cover("many " + kind)
    if kind == "ok":
        W.check(good, "defective settings are accepted")
    else:
        W.check(v == "ValidationError", "refused with another error")
        W.check(W.Not(good), "settings without a defect are refused")


def names(W, P):
    """One defined name and one reference of any characters."""
    from graphtransliterator import GraphTransliterator

    n, m = P["names"]
    place = P["place"]
    of_class = "class" in place
    name, ref = W.string("name", n), W.string("ref", m)
    if of_class:
        toks = {"a": [name], " ": ["w"]}
    else:
        if n == 1:
            W.assume(W.Not(W.eq(name, " ")))
        toks = {name: ["x"], " ": ["w"]}
    bad = W.Not(W.isin(ref, [name, "w" if of_class else " "]))
    rule = {"production": "P", "tokens": ["a" if of_class else " "]}
    if place in PARTS:
        rule[place] = [ref]
    s = {"tokens": toks, "rules": [rule], "whitespace": {"default": " ", "token_class": "w", "consolidate": False}}
    if place in s["whitespace"]:
        s["whitespace"][place] = ref
    if place.startswith("om."):
        o = {"prev_classes": ["w"], "next_classes": ["w"], "production": "!"}
        o[place[3:]] = [ref]
        s["onmatch_rules"] = [o]
    kind, v = W.run(GraphTransliterator.from_dict, s)
    W.observe([kind, v if kind == "exc" else None])
    W.cover("names " + kind)
    if kind == "ok":
        W.check(W.Not(bad), "defective settings are accepted")
    else:
        W.check(v == "ValidationError", "refused with another error")
        W.check(bad, "settings without a defect are refused")


def body(W, P):
    from graphtransliterator import GraphTransliterator

    if "many" in P:
        return many(W)
    if "names" in P:
        return names(W, P)
    easy = P["route"] == "easy"
    toks = {"a": ["x"], "b": [], " ": ["w"]}
    if "check" not in P:
        toks["b"] = W.choose("classes of b", [[], ["y"], ["x", "y"]])
        toks["a"] = W.choose("classes of a", [["x"], []])
    toks = cp(toks)
    defined = [c for t in toks for c in toks[t]]
    bad = False
    rules = []
    for k, sh in enumerate(P["shapes"]):
        r = symrule(W, "r%d" % k, tuple(sh), "ab?", "xy?")
        for p in PARTS:
            for v in r[p]:
                bad = W.Or(bad, W.Not(W.isin(v, defined if p.endswith("classes") else list(toks))))
        rules.append(r)
    om = []
    for k, (m, n) in enumerate(P.get("om", [])):
        o = {"prev_classes": [W.char("om%d.p%d" % (k, j), "xy?") for j in range(m)],
             "next_classes": [W.char("om%d.n%d" % (k, j), "xy?") for j in range(n)],
             "production": "!"}
        for v in o["prev_classes"] + o["next_classes"]:
            bad = W.Or(bad, W.Not(W.isin(v, defined)))
        om.append(o)
    ws = {"default": " ", "token_class": "w", "consolidate": False}
    if "ws" in P:
        ws["default"] = W.char("default", "a ?")
        ws["token_class"] = W.char("wclass", "xw?")
        ws["consolidate"] = W.flag("cons")
        bad = W.Or(bad, W.Not(W.isin(ws["default"], list(toks))),
                   W.Not(W.isin(ws["token_class"], defined)))
    s = {"tokens": toks, "whitespace": ws}
    if easy:
        s["rules"] = {notation(r): "P%d" % k for k, r in enumerate(rules)}
        if om:
            s["onmatch_rules"] = [
                {" ".join("<" + c + ">" for c in o["prev_classes"]) + " + " +
                 " ".join("<" + c + ">" for c in o["next_classes"]): o["production"]} for o in om]
    else:
        s["rules"] = [ruledict(r, "P%d" % k) for k, r in enumerate(rules)]
        if om:
            s["onmatch_rules"] = om
    if "opt" in P:
        if W.flag("no onmatch"):
            s["onmatch_rules"] = []
        m = W.choose("metadata", 3)
        if m:
            s["metadata"] = [{}, {"k": [1, None]}][m - 1]
    if "missing" in P:
        bad = True
        m = P["missing"]
        where = s
        if "." in m:
            sec, m = m.split(".")
            where = {"whitespace": ws, "rule": s["rules"] and s["rules"][0], "onmatch": om[0]}[sec] if not easy else ws
        del where[m]
    make = GraphTransliterator.from_easyreading_dict if easy else GraphTransliterator.from_dict
    opts = {}
    if "check" in P:
        opts["check_ambiguity"] = W.flag("check")
    elif W.flag("unchecked"):
        opts["check_ambiguity"] = False
    kind, r = W.run(make, s, **opts)
    W.observe([kind, r if kind == "exc" else None])
    if kind == "ok":
        W.cover("accepted")
        W.check(W.Not(bad), "defective settings are accepted")
    elif r == "AmbiguousTransliterationRulesException":
        W.cover("ambiguous")
        W.check(W.And(W.Not(bad), opts.get("check_ambiguity", True)), "refused as ambiguous without need")
    else:
        W.cover("refused")
        W.check(r == "ValidationError", "refused with another error")
        W.check(bad, "settings without a defect are refused")
