from hlib import *
from c09 import configs, far, long, possible, setup, TOK

META = {
    "bounds": {
        "quick": "all pairs of rules needing <=4 tokens of equal number, pairs needing 2 (one of them with a cheaper rule) with 12 others between them, all triples needing <=2, selected triples and quadruples needing <=3; rule tokens, classes and class memberships symbolic, the productions of pairs needing <=3 alike or not, over 3 tokens and 2 classes (one named like a token) plus the whitespace class; two rules needing 7-22 tokens each (or one of them one more), one token and one class of theirs symbolic; whole token contexts are quantified over by formulas",
        "thorough": "all pairs needing <=5, triples needing <=3, quadruples needing <=2",
    },
    "outside": "more rules, tokens and classes",
    "stubs": "logging is a no-op",
}
BUDGET = {"quick": 100, "thorough": 2400}


def jobs(tier):
    return [{"shapes": c, "prod": len(c) == 2 and sum(map(sum, c)) < 7} for c in configs(tier)] + far(tier) + long()


def body(W, P):
    rules, class_of, make = setup(W, P)
    kind, res = W.run(make, True)
    W.observe([kind, res if kind == "exc" else None])
    W.cover("refused" if kind == "exc" else "accepted")
    left = max(len(r["prev_classes"]) + len(r["prev_tokens"]) for r in rules)
    right = max(need(r) - len(r["prev_classes"]) - len(r["prev_tokens"]) for r in rules)
    span = range(-left, right)
    conflicts = []
    toks = TOK + chr(0x100) if P.get("fill") else TOK
    for p, q in itertools.combinations(range(len(rules)), 2):
        if need(rules[p]) != need(rules[q]):
            continue
        both = {k: [(t, W.And(possible(W, rules[p], k, t, class_of), possible(W, rules[q], k, t, class_of)))
                    for t in toks] for k in span}
        common = W.And(*[W.Or(*[f for _, f in both[k]]) for k in span])
        covered = []
        for r in rules:
            if need(r) > need(rules[p]):
                covered.append(W.And(*[W.Implies(f, possible(W, r, k, t, class_of))
                                       for k in span for t, f in both[k]]))
        conflicts.append(W.And(common, W.Not(W.Or(*covered))))
    if kind == "exc":
        W.check(res == "AmbiguousTransliterationRulesException", "unexpected exception")
        W.check(W.Or(*conflicts), "refused although no two rules conflict")
        k2, r2 = W.run(make, False)
        W.check(k2 == "ok", "refused although checking is off")
