from hlib import *

TOK = "ab "
CLS = "bw"  # one is named like a token
META = {
    "bounds": {
        "quick": "1 rule needing <=5 tokens, all pairs needing <=3, all triples needing <=2 (all splits into context and tokens); rule tokens, rule classes and class memberships symbolic over 3 tokens and 2 classes (one named like a token); every token sequence of <=4 tokens in the frame, every position; the larger configuration, the rules for beginnings of the same text and the up to 40 rules for one token of C01",
        "thorough": "1 rule needing <=6 tokens, pairs needing <=4, triples needing <=3, quadruples needing <=2; the larger configuration of C01",
    },
    "outside": "more rules, tokens, classes or longer sequences; positions outside the sequence",
    "stubs": "logging is a no-op",
}
BUDGET = {"quick": 90, "thorough": 2400}

from c01 import branches, jobs, many_tokens, named  # noqa: E402,F401  the same configurations


def many(W, P):
    gt = direct(MANY)
    toks, i = many_tokens(W, P)
    rules = spec_rules(MANY)
    kind, res = W.run(gt.match_at, i, toks, match_all=True)
    W.observe([kind, res])
    W.check(kind == "ok", "match_at raised")
    for k, r in enumerate(rules):
        f = fits(W, {p: r.get(p) or [] for p in PARTS}, toks, i, MANY["tokens"])
        W.check(f if res.count(k) == 1 else W.Not(f) if k not in res else False,
                "not the rules that fit, once each")
    cost = [need_of(rules[k]) for k in res]
    W.check(cost == sorted(cost, reverse=True), "not ordered by cost")
    W.check(gt.match_at(i, toks) == (res[0] if res else None), "single and multiple match disagree")
    W.cover("many")


def body(W, P):
    if "many" in P:
        return many(W, P)
    sh = [tuple(s) for s in P.get("shapes", ())]
    if "branches" in P:
        rules, class_of, by_class, toks, i = branches(W, P)
    elif "names" in P:
        rules, class_of, by_class, toks, i = named(W, P)
    else:
        rules = symrules(W, sh, TOK, CLS)
        class_of, by_class = W.relation("cls", list(TOK), list(CLS), {" ": ["w"]})
        n = P["n"]
        toks = [" "] + [W.char("t%d" % k, TOK) for k in range(n)] + [" "]
        i = W.choose("at", n + 2)
    gt = build(W, [ruleobj(r, "P%d" % k) for k, r in enumerate(rules)], class_of, by_class)
    kind, res = W.run(gt.match_at, i, toks, match_all=True)
    W.check(kind == "ok", "match_at raised")
    if kind != "ok":
        return
    W.check(isinstance(res, list), "not a list")
    W.observe(res)
    W.cover("%d matches" % len(res))
    ok = [fits(W, r, toks, i, class_of) for r in rules]
    W.check(len(set(res)) == len(res), "a rule is listed twice")
    for k in range(len(rules)):
        if k in res:
            W.check(ok[k], "a listed rule does not fit")
        else:
            W.check(W.Not(ok[k]), "a fitting rule is not listed")
    for p, q in zip(res, res[1:]):
        W.check(need(rules[p]) >= need(rules[q]), "not ordered by cost")
    best = gt.match_at(i, toks)
    W.check((best is None) == (not res), "single and multiple match disagree")
    if res:
        W.check(need(rules[best]) == need(rules[res[0]]), "first entry is not the best")
