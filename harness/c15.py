from hlib import *

META = {
    "bounds": {
        "quick": "(order) 2-3 declared rules in a symbolic order: every combination of shapes needing <=3 tokens for 2 rules and <=2 for 3 rules, last token of each rule symbolic, productions arbitrary symbolic characters; sorted order, cost strictness and preservation of the rules checked. (meaning) every permutation of the declared rules of a fixed 5-rule configuration and of symbolic 2-3 rule configurations passing the ambiguity check: every input of <=2-3 characters gives the same result. (routes) from_dict, from_easyreading_dict, from_yaml. (costs) 42 rules in 10 orders, inputs of 1 character and one of 20 with one, anywhere, symbolic. (costs) costs by number of needed tokens up to 200",
        "thorough": "3 rules needing <=3 tokens, 4 rules needing <=2, inputs of <=3 characters for symbolic rules; costs up to 1000 tokens",
    },
    "outside": "custom costs (C19, C23); more rules",
    "stubs": "re: backtracking matcher; logging is a no-op; marshmallow runs instrumented",
}
BUDGET = {"quick": 90, "thorough": 2400}

TOKENS = {"a": ["x"], "b": ["y"], " ": ["w", "x"]}
WS = {"default": " ", "token_class": "w", "consolidate": False}
FIXED = [
    {"production": "A", "tokens": ["a"]},
    {"production": "B", "tokens": ["b"]},
    {"production": "1", "tokens": ["a"], "prev_tokens": ["b"]},
    {"production": "2", "tokens": ["a"], "prev_classes": ["y"], "next_classes": ["x"]},
    {"production": "3", "tokens": ["a", "a"]},
]
EASY = {"A": "a", "B": "b", "1": "(b) a", "2": "<y> a <x>", "3": "a a"}


def jobs(tier):
    big = tier == "thorough"
    out = []
    for a, b in itertools.combinations_with_replacement(shapes(4 if big else 3), 2):
        out.append({"kind": "order", "shapes": [a, b]})
    for c in itertools.combinations_with_replacement(shapes(3 if big else 2), 3):
        out.append({"kind": "order", "shapes": list(c)})
    if big:
        for c in itertools.combinations_with_replacement(shapes(2), 4):
            out.append({"kind": "order", "shapes": list(c)})
    for r in ("dict", "easy", "yaml"):
        out.append({"kind": "fixed", "route": r, "n": (3 if r == "dict" else 2) + big})
    for c in itertools.combinations_with_replacement(shapes(2), 2):
        out.append({"kind": "meaning", "shapes": list(c), "n": 3 if big else 2})
    if big:
        for c in itertools.combinations_with_replacement(shapes(2, max_tok=1), 3):
            out.append({"kind": "meaning", "shapes": list(c), "n": 2})
    for n in (0, 1, 2) if big else (0, 1):
        out.append({"kind": "many", "n": n})
    out.append({"kind": "costs", "max": 1000 if big else 200})
    return out


def permuted(W, xs):
    """The elements in an order chosen symbolically."""
    xs = list(xs)
    out = []
    for k in range(len(xs)):
        out.append(xs.pop(W.choose("order %d" % k, len(xs))))
    return out


def body(W, P):
    from graphtransliterator import GraphTransliterator

    kind = P["kind"]
    if kind == "many":
        P = dict(P, many=1)
    if kind == "costs":
        n = W.choose("n", P["max"])
        part = W.choose("part", 5)
        rules = [{"production": "L", "tokens": ["a"]}, {"production": "M", "tokens": ["a"]}]
        extra = ["prev_classes", "prev_tokens", "tokens", "next_tokens", "next_classes"][part]
        val = "x" if part in (0, 4) else "a"
        for r, m in zip(rules, (n, n + 1)):
            r[extra] = [val] * m + (["a"] if extra == "tokens" else [])
        gt = GraphTransliterator.from_dict(
            {"tokens": TOKENS, "rules": rules, "whitespace": WS}, check_ambiguity=False)
        W.observe(gt.productions)
        W.check(gt.productions == ["M", "L"], "the rule needing more tokens is not first")
        W.check(gt.rules[0].cost < gt.rules[1].cost, "its cost is not lower")
        return
    if kind == "many":
        k = W.choose("order", [0, 1, 7, 20, 41])
        rules = MANY["rules"][k:] + MANY["rules"][:k]
        if W.flag("reversed"):
            rules = list(reversed(rules))
        s = fixed(P, rules=rules)
        gt = GraphTransliterator.from_dict(s, check_ambiguity=False)
        W.check(gt.productions == [r["production"] for r in spec_rules(s)], "rules are not in order of cost")
        t = fixed_text(W, {"many": 1} if P["n"] else {"many": 1, "long": 1}, "s", P["n"])
        r = W.run(gt.transliterate, t)
        W.observe(list(r))
        W.check(W.eq(list(r), list(spec(MANY, t)[0])), "transliteration depends on the declared order")
        return
    if kind == "fixed":
        if P["route"] == "dict":
            s = {"tokens": TOKENS, "rules": permuted(W, FIXED), "whitespace": WS}
            gt = GraphTransliterator.from_dict(s)
        else:
            order = permuted(W, FIXED)
            if P["route"] == "easy":
                s = {"tokens": TOKENS, "rules": {EASY[r["production"]]: r["production"] for r in order},
                     "whitespace": WS}
                gt = GraphTransliterator.from_easyreading_dict(s)
            else:
                y = "tokens: {a: [x], b: [y], ' ': [w, x]}\nrules:\n"
                for r in order:
                    y += "  %s: '%s'\n" % (EASY[r["production"]], r["production"])
                y += "whitespace: {default: ' ', token_class: w, consolidate: false}\n"
                gt = GraphTransliterator.from_yaml(y)
        declared = order if P["route"] != "dict" else s["rules"]
        W.check(gt.productions == [r["production"] for r in spec_rules({"rules": declared})],
                "rules are not in order of cost")
        t = W.string("s", P["n"], "ab ?")
        r = W.run(gt.transliterate, t)
        W.observe(list(r))
        want = spec({"tokens": TOKENS, "rules": FIXED, "whitespace": WS}, t)[0]
        W.check(W.eq(list(r), list(want)), "transliteration depends on the declared order")
        return
    rules = []
    for k, sh in enumerate(P["shapes"]):
        if kind == "order":
            # the last token symbolic, the production arbitrary
            r = {p: ["a" if p.endswith("tokens") else "x"] * n for p, n in zip(PARTS, sh)}
            r["tokens"][-1] = W.char("r%d.token" % k, "ab")
            rules.append(ruledict(r, W.string("out%d" % k, 1)))
        else:
            rules.append(ruledict(symrule(W, "r%d" % k, tuple(sh), "ab", "xy"), "PQRS"[k]))
    order = permuted(W, rules)
    s = {"tokens": TOKENS, "rules": order, "whitespace": WS}
    if kind == "order":
        gt = GraphTransliterator.from_dict(s, check_ambiguity=False)
        got = gt.rules
        W.check(len(got) == len(rules), "rules were lost or added")
        want = spec_rules(s)
        W.observe(gt.productions)
        for g, w in zip(got, want):
            for p in PARTS:
                W.check(W.eq(list(getattr(g, p) or []), list(w.get(p) or [])), "another rule or order")
            W.check(W.eq(g.production, w["production"]), "another rule or order")
        size = [sum(len(w.get(p) or []) for p in PARTS) for w in want]
        for i in range(len(got) - 1):
            if size[i] > size[i + 1]:
                W.cover("cheaper")
                W.check(got[i].cost < got[i + 1].cost, "not strictly cheaper")
            else:
                W.cover("tied")
                W.check(got[i].cost == got[i + 1].cost, "equally needy rules differ in cost")
        return
    k, gt = W.run(GraphTransliterator.from_dict, s)
    k2, gt2 = W.run(GraphTransliterator.from_dict, dict(s, rules=rules))
    W.check(k == k2, "refused or not, depending on the declared order")
    if k == "exc":
        W.cover("refused")
        return
    W.cover("meaning")
    t = W.string("s", P["n"], "ab ")
    r, r2 = W.run(gt.transliterate, t), W.run(gt2.transliterate, t)
    W.observe(list(r))
    W.check(W.eq(list(r), list(r2)), "transliteration depends on the declared order")
