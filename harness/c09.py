from hlib import *

TOK = "ab "
CLS = "by"  # one is named like a token
META = {
    "bounds": {
        "quick": "all pairs of rules needing <=4 tokens of equal number, pairs needing 2 (one of them with a cheaper rule) with 12 others between them, all triples of rules needing <=2 tokens, and triples and quadruples of selected shapes needing <=3; rule tokens, classes and class memberships symbolic, the productions of pairs needing <=3 alike or not, over 3 tokens and 2 classes (one named like a token) plus the whitespace class; two rules needing 7-22 tokens each (or one of them one more), one token and one class of theirs symbolic; every whitespace-framed token sequence long enough for the rules, every position",
        "thorough": "all pairs needing <=5, triples needing <=3, quadruples needing <=2",
    },
    "outside": "more rules; see the known finding: a tie whose only cheaper covering rule needs context beyond the end of the sequence",
    "stubs": "logging is a no-op",
}
BUDGET = {"quick": 100, "thorough": 2400}


def configs(tier):
    big = tier == "thorough"
    out = []
    for s1, s2 in itertools.combinations_with_replacement(shapes(5 if big else 4), 2):
        if sum(s1) == sum(s2):
            out.append([s1, s2])
    for t in itertools.combinations_with_replacement(shapes(3 if big else 2), 3):
        out.append(list(t))
    one, two = (0, 0, 1, 0, 0), [(1, 0, 1, 0, 0), (0, 0, 1, 0, 1), (0, 1, 1, 0, 0), (0, 0, 2, 0, 0)]
    three = [(1, 0, 1, 0, 1), (0, 0, 1, 0, 2), (0, 0, 2, 0, 1), (1, 1, 1, 0, 0)]
    for s1, s2 in itertools.combinations_with_replacement(two, 2):
        for t in three:
            out.append([t, s1, s2])
    # three rules of equal cost, and pairs with two possible covering rules
    for s1, s2, s3 in itertools.combinations_with_replacement(two[:2], 3):
        out.append([s1, s2, s3, one])
        out.append([(0, 0, 1, 0, 0)] * 2 + [s1, s2])
    if big:
        for t in itertools.combinations_with_replacement(shapes(2), 4):
            out.append(list(t))
    return [[list(s) for s in c] for c in out]


def jobs(tier):
    out = [{"shapes": c, "prod": len(c) == 2 and sum(map(sum, c)) < 7} for c in configs(tier)]
    out.append({"known": 1})
    return out + far(tier) + long()


def long():
    """Two rules that need many tokens, of equal number or not."""
    return [{"shapes": [], "long": p, "more": k} for p in ("prev_tokens", "tokens", "next_tokens", "next_classes") for k in (0, 1)]


def longrules(W, P):
    e = {p: [] for p in PARTS}
    n = W.choose("needs", [7, 12, 17, 20, 21, 22])
    m = n if P["long"] == "tokens" else n // 2
    one = dict(e, tokens=["a"] * m)
    if P["long"] != "tokens":
        one[P["long"]] = ["y" if P["long"] == "next_classes" else "a"] * (n - m)
    two = {p: list(v) for p, v in one.items()}
    k = W.choose("place", [0, m // 2, m - 1])
    two["tokens"][k] = W.char("token", TOK)
    two["prev_classes"] = [W.char("class", CLS)] * P["more"]
    return [two, one]


def far(tier):
    """Two rules with other equally costly ones between them (and a cheaper one before others)."""
    two = [(1, 0, 1, 0, 0), (0, 0, 1, 0, 1), (0, 1, 1, 0, 0)]
    out = []
    for k, (a, b) in enumerate(itertools.combinations_with_replacement(two, 2)):
        if k == 4 and tier == "quick":
            continue
        for n in (12, 30) if tier == "thorough" else (12,):
            out.append({"shapes": [list(a), list(b)], "fill": n})
            if k == 1 or tier == "thorough":
                out.append({"shapes": [[0, 1, 1, 1, 0], list(a), list(b)], "fill": n})
    return out


def possible(W, r, k, t, class_of):
    """Formula: token t may stand at offset k (relative to the match) for rule r."""
    pc, pt, tk, nt, nc = [r[p] for p in PARTS]
    fixed = list(pt) + list(tk) + list(nt)
    j = k + len(pt)
    if 0 <= j < len(fixed):
        return W.eq(fixed[j], t)
    j2 = k + len(pt) + len(pc)
    if 0 <= j2 < len(pc):
        return W.isin(pc[j2], class_of[t])
    j3 = j - len(fixed)
    if 0 <= j3 < len(nc):
        return W.isin(nc[j3], class_of[t])
    return True


def setup(W, P):
    from graphtransliterator import GraphTransliterator, WhitespaceRules

    if "known" in P:
        # <x> a, <y> a, and the cheaper <x> a <w> <w>
        e = {p: [] for p in PARTS}
        rules = [dict(e, prev_classes=["x"], tokens=["a"], next_classes=["x", "x"]),
                 dict(e, prev_classes=["x"], tokens=["a"]), dict(e, prev_classes=["y"], tokens=["a"])]
        class_of = {"a": {"x", "y"}, "b": {"x", "y"}, " ": {"w", "x", "y"}}
        by_class = {"x": {"a", "b", " "}, "y": {"a", "b", " "}, "w": {" "}}
    else:
        rules = longrules(W, P) if "long" in P else symrules(W, [tuple(s) for s in P["shapes"]], TOK, CLS + "w")
        class_of, by_class = W.relation("cls", list(TOK), list(CLS), {" ": ["w"]})
    # (productions are no matter)
    same = W.flag("same production") if P.get("prod") else False
    fill, after = P.get("fill", 0), 0
    if fill:
        # rules of tokens of their own, which conflict with none
        class_of = dict(class_of)
        for k in range(fill):
            class_of[chr(0x100 + k)] = {"z"}
        after = 1 + W.choose("cheaper ones", [0, 1]) if len(rules) > 2 else 0

    def objects():
        out = [ruleobj(r, "P" if same else "P%d" % k) for k, r in enumerate(rules)]
        if not fill:
            return out
        e = {p: [] for p in PARTS}
        k = len(out) - 1
        between = [ruleobj(dict(e, tokens=[chr(0x100 + i)], next_classes=["z"]), "F%d" % i)
                   for i in range(fill)]
        out[k:k] = between
        if after:
            cheaper = [ruleobj(dict(e, tokens=[chr(0x100 + i)], next_classes=["z", "z"]), "G%d" % i)
                       for i in range(fill)]
            out[after - 1:after - 1] = cheaper
        return out

    def make(check):
        return GraphTransliterator(
            class_of, objects(),
            WhitespaceRules(default=" ", token_class="w", consolidate=False),
            tokens_by_class=dict(by_class, z={chr(0x100 + k) for k in range(fill)}) if fill else by_class,
            check_ambiguity=check)

    return rules, class_of, make


def body(W, P):
    rules, class_of, make = setup(W, P)
    kind, res = W.run(make, True)
    W.observe([kind, res if kind == "exc" else None])
    if kind == "exc":
        W.cover("refused")
        W.check(res == "AmbiguousTransliterationRulesException", "unexpected exception")
        return
    W.cover("accepted")
    left = max(len(r["prev_classes"]) + len(r["prev_tokens"]) for r in rules)
    right = max(need(r) - len(r["prev_classes"]) - len(r["prev_tokens"]) for r in rules)
    # a position with room for every rule, and the ones near either end
    if "long" in P:
        toks = [" "] + ["a"] * (left + right - 3) + [W.char("t%d" % k, TOK) for k in range(3)] + [" "]
    else:
        toks = [" "] + [W.char("t%d" % k, TOK) for k in range(left + right)] + [" "]
    for i in range(1, len(toks) - 1):
        ok = [fits(W, r, toks, i, class_of) for r in rules]
        for p, q in itertools.combinations(range(len(rules)), 2):
            if need(rules[p]) != need(rules[q]):
                continue
            cheaper = []
            for k, r in enumerate(rules):
                if need(r) > need(rules[p]):
                    c = [ok[k]]
                    if "known" not in P:
                        # near the ends: enough that it fits as far as there are tokens
                        c.append(W.And(*[possible(W, r, j - i, toks[j], class_of)
                                         for j in range(len(toks))]))
                    cheaper.append(W.Or(*c))
            msg = "accepted, but two rules tie for the lowest cost"
            if "known" in P and i + need(rules[0]) - 1 > len(toks):
                msg = "accepted, but two rules tie near the end"
            W.check(W.Not(W.And(ok[p], ok[q], W.Not(W.Or(*cheaper)))), msg)
