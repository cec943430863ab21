from hlib import *
from c11 import conf_jobs

META = {
    "bounds": {
        "quick": "the settings of C11 (1 rule needing <=3 tokens or 2 needing <=2, 0-2 on-match rules of <=2+<=2 classes, variants of token classes, absent/empty/null parts; names and productions symbolic), rules needing 1-24 tokens, a configuration with names of 1-2 arbitrary characters, on-match rules of up to 3+2 classes over tokens with 0-3 classes, a feature-complete configuration and one with 42 rules, 17 tokens, 31 classes and 14 on-match rules; built from settings, loaded from a dump of each level with and without derived entries, pruned, or coverage tracking",
        "thorough": "2 rules needing <=3, 3 rules needing <=2, all routes for all",
    },
    "outside": "bigger settings; tables given to the constructor by the caller",
    "stubs": "re: backtracking matcher; logging is a no-op; marshmallow runs as is, instrumented",
}
BUDGET = {"quick": 90, "thorough": 2400}
ROUTES = ["dict", "load0", "bare", "load1", "load2", "prune", "coverage"]


def jobs(tier):
    out = []
    confs = conf_jobs(tier)
    one = (0, 0, 1, 0, 0)
    confs += [{"shapes": [one], "om": [(3, 2)], "vary": "classes"},
              {"shapes": [one], "om": [(1, 1), (1, 1), (1, 1)]},
              {"shapes": [one], "om": [(2, 1), (1, 2)], "vary": "classes"}]
    for k, c in enumerate(confs):
        for j, r in enumerate(ROUTES):
            if tier == "thorough" or "names" in c or "needs" in c or (k + j) % 7 < 2:
                out.append(dict(c, route=r))
    for r in ROUTES:
        out.append({"fixed": 1, "route": r})
        out.append({"fixed": 1, "route": r, "many": 1})
    return out


def body(W, P):
    from graphtransliterator import CoverageTransliterator, GraphTransliterator

    route = P["route"]
    s = fixed(P) if "fixed" in P else symsettings(W, P)
    gt = GraphTransliterator.from_dict(s, check_ambiguity=False)
    rules = spec_rules(s)
    if route in ("load0", "load1", "load2"):
        gt = GraphTransliterator.load(gt.dump(int(route[-1])))
    elif route == "bare":
        d = gt.dump()
        for k in ("onmatch_rules_lookup", "tokens_by_class", "graph", "tokenizer_pattern"):
            d.pop(k)
        gt = GraphTransliterator.load(d)
    elif route == "prune":
        x = W.string("pruned", 1)
        gt = gt.pruned_of(x)
        rules = [r for r in rules if not (r["production"] == x)]
    elif route == "coverage":
        gt = CoverageTransliterator(gt.tokens, gt.rules, gt.whitespace,
                                    onmatch_rules=gt.onmatch_rules, check_ambiguity=False)
    W.cover(route)
    tables(W, gt, s, rules)
    W.check(gt.last_matched_rules == [] and gt.last_matched_rule_tokens == [],
            "rules are reported before any transliteration")


def tables(W, gt, s, rules):
    tokens = s["tokens"]
    W.check(sorted(gt.tokens) == sorted(tokens), "other tokens")
    for t in tokens:
        W.check(set(gt.tokens[t]) == set(tokens[t]), "other classes of a token")
    # tokens by class
    table = gt.tokens_by_class
    classes = set()
    for t in tokens:
        classes |= set(tokens[t])
    W.check(set(table) == classes, "other token classes")
    for c in classes:
        W.check(set(table[c]) == set([t for t in tokens if c in tokens[t]]), "other tokens of a class")
    # productions
    W.check(W.eq(list(gt.productions), [r["production"] for r in rules]), "other productions")
    # lookup of on-match rules
    oms = s.get("onmatch_rules") or []
    W.check(len(gt.onmatch_rules or []) == len(oms), "other on-match rules")
    for got, o in zip(gt.onmatch_rules or [], oms):
        W.check(W.eq(list(got.prev_classes), o["prev_classes"]), "other previous classes")
        W.check(W.eq(list(got.next_classes), o["next_classes"]), "other next classes")
        W.check(W.eq(got.production, o["production"]), "another production")
    look = gt.onmatch_rules_lookup or {}
    for cur in look:
        W.check(cur in tokens, "an entry of an unknown token")
        for prev in look[cur]:
            W.check(prev in tokens, "an entry of an unknown token")
    seen = []
    for cur in tokens:
        for prev in tokens:
            got = list((look.get(cur) or {}).get(prev) or [])
            want = []
            for k, o in enumerate(oms):
                if o["next_classes"][0] in tokens[cur] and o["prev_classes"][-1] in tokens[prev]:
                    want.append(k)
            seen.append(want)
            W.check(got == want, "other on-match rules are looked up")
    W.observe(seen)
    # settings that are reported
    w = s["whitespace"]
    W.check([gt.whitespace.default, gt.whitespace.token_class, bool(gt.whitespace.consolidate)]
            == [w["default"], w["token_class"], w["consolidate"]], "other whitespace settings")
