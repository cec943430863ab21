from hlib import *

TOK = "ab "
CLS = "bw"  # one is named like a token
META = {
    "bounds": {
        "quick": "1 rule needing <=5 tokens (all splits into previous classes/tokens, tokens, next tokens/classes), all pairs of rules needing <=3 tokens, all triples needing <=2; every token and class of every rule symbolic over 3 tokens (a, b, whitespace) and 2 classes (one named like a token), every class membership symbolic, every token sequence of <=4 tokens inside the whitespace frame, every position; 3 (4) rules for beginnings of the same text, of 1-4 tokens and 0-3 (0-2) previous classes that fit or not, in any combination; 1-2 context-free rules over the token names 'a' and '__rules__' (the internal name of leaves); a conflict-free configuration with more than ten tokens, classes, nodes, equally costly rules of the same tokens, with a rule of 12 tokens: every sequence of <=3 of its tokens, a sequence of 17 with any one token replaced, at every position; up to 40 rules for one token, of which all, some, one or none fit",
        "thorough": "1 rule needing <=6 tokens, pairs needing <=4, triples needing <=3, quadruples needing <=2; same alphabets, sequences of <=5 tokens, every position; the larger configuration with sequences of <=4",
    },
    "outside": "more rules, tokens, classes or longer sequences; positions outside the sequence",
    "stubs": "logging is a no-op",
    "assumptions": [],
}
BUDGET = {"quick": 90, "thorough": 2400}


def jobs(tier):
    big = tier == "thorough"
    out = []
    for s in shapes(6 if big else 5):
        out.append({"shapes": [s], "n": 5 if big else 4})
    for s1 in shapes(3):
        for s2 in shapes(3):
            out.append({"shapes": [s1, s2], "n": 3})
    for t in itertools.combinations_with_replacement(shapes(2), 3):
        out.append({"shapes": list(t), "n": 3})
    out += [{"many": 1, "n": n} for n in ((1, 2, 3, 4) if big else (1, 2, 3))]
    out.append({"many": 1, "long": 1})
    for first in range(1, 5):
        out.append({"branches": 3, "first": first, "max": 3})
        out.append({"branches": 4, "first": first, "max": 3 if big else 2})
    out.append({"branches": 0, "crowd": 1})
    # a token spelled like the internal name of the leaves
    one, two, nxt = (0, 0, 1, 0, 0), (0, 0, 2, 0, 0), (0, 0, 1, 1, 0)
    for sh in ([one], [two], [one, one], [two, one], [two, two], [nxt, one]):
        out.append({"shapes": sh, "n": 2, "names": ["a", "__rules__"]})
    if big:
        for s1 in shapes(4):
            for s2 in shapes(4):
                if sum(s1) == 4 or sum(s2) == 4:
                    out.append({"shapes": [s1, s2], "n": 4})
        for t in itertools.combinations_with_replacement(shapes(2), 4):
            out.append({"shapes": list(t), "n": 3})
        for t in itertools.combinations_with_replacement(shapes(3), 3):
            out.append({"shapes": list(t), "n": 3})
    return out


def named(W, P):
    """Rules and tokens with names chosen among the given ones."""
    names = P["names"] + [" "]
    class_of, by_class = W.relation("cls", names, list(CLS), {t: [CLS[0]] for t in names})
    rules = []
    for k, s in enumerate(sorted(P["shapes"], key=lambda s: -sum(s))):
        rules.append({p: [W.choose("r%d.%s%d" % (k, p, j), P["names"]) for j in range(m)]
                      for p, m in zip(PARTS, s)})
    toks = [" "] + [W.choose("t%d" % k, names) for k in range(P["n"])] + [" "]
    return rules, class_of, by_class, toks, 1


MANY_TOKENS = "abdeijk "
LONG_TOKENS = ["c", "d", "c", "i", "j", "k", "l", "m", "a", "c", "e", "_", "abcdef", "d", "b", "d", " "]


def many_tokens(W, P):
    """A token sequence for the configuration with many parts, and a position."""
    if "long" in P:
        toks = [" "] + LONG_TOKENS + [" "]
        # one token, anywhere, is another one
        toks[W.choose("which", range(1, len(toks) - 1))] = W.char("other", "abcdi ")
        return toks, W.int("at", 0, len(toks) - 1)
    toks = [" "] + [W.char("t%d" % k, MANY_TOKENS) for k in range(P["n"])] + [" "]
    return toks, W.choose("at", P["n"] + 2)


def crowd(W):
    """Up to 40 rules for one token, of which all, some, one or none fit."""
    n = W.choose("rules", [9, 17, 33, 40])
    cs = ["c%d" % k for k in range(n)]
    class_of = {"a": set(cs), "b": {cs[0], cs[1]} | set(cs[2::3]), " ": {"w", cs[-1]}}
    by_class = {c: {t for t in class_of if c in class_of[t]} for c in cs + ["w"]}
    e = {p: [] for p in PARTS}
    rules = [dict(e, tokens=["a"], prev_classes=[cs[k], cs[k - 1]]) for k in range(0, n, 4)]
    rules += [dict(e, tokens=["a"], prev_classes=[c]) for c in cs]
    toks = [" ", W.char("t0", "ab "), W.char("t1", "ab "), "a", "b", " "]
    return rules, class_of, by_class, toks, 3


def branches(W, P):
    """Rules for beginnings of the same text, each of which fits or does not, in
    any combination: rule k has n tokens and m previous classes."""
    if "crowd" in P:
        return crowd(W)
    rules = []
    last = P["first"] + P["max"]
    for k in range(P["branches"]):
        # (from the rule that needs most to the one that needs least)
        m = W.choose("classes%d" % k, P["max"] + 1)
        n = P["first"] if k == 0 else W.choose("tokens%d" % k, range(1, 5))
        W.assume(m + n <= last)
        last = m + n
        rules.append({p: [] for p in PARTS})
        rules[k]["tokens"] = list("abcd"[:n])
        rules[k]["prev_classes"] = ["c%d" % k] * m
    names = ["c%d" % k for k in range(P["branches"])]
    class_of, by_class = W.relation("cls", list("abcdp "), names + ["w"],
                                    dict({t: [] for t in "abcd"}, **{" ": ["w"]}))
    return rules, class_of, by_class, [" "] + ["p"] * P["max"] + list("abcd") + [" "], 1 + P["max"]


def many(W, P):
    gt = direct(MANY)
    toks, i = many_tokens(W, P)
    rules = spec_rules(MANY)
    W.check([r.production for r in gt.rules] == [r["production"] for r in rules], "other rules")
    kind, res = W.run(gt.match_at, i, toks)
    W.observe([kind, res])
    W.check(kind == "ok", "match_at raised")
    ok = [fits(W, {p: r.get(p) or [] for p in PARTS}, toks, i, MANY["tokens"]) for r in rules]
    if res is None:
        W.check(W.Not(W.Or(*ok)), "no match reported although a rule fits")
    else:
        W.check(ok[res], "the returned rule does not fit")
        W.check(W.Not(W.Or(*ok[:res])), "a rule of lower cost fits")
    W.cover("many")


def body(W, P):
    if "many" in P:
        return many(W, P)
    sh = [tuple(s) for s in P.get("shapes", ())]
    if "branches" in P:
        rules, class_of, by_class, toks, i = branches(W, P)
    elif "names" in P:
        rules, class_of, by_class, toks, i = named(W, P)
    else:
        rules = symrules(W, sh, TOK, CLS)
        class_of, by_class = W.relation("cls", list(TOK), list(CLS), {" ": ["w"]})
        n = P["n"]
        toks = [" "] + [W.char("t%d" % k, TOK) for k in range(n)] + [" "]
        i = W.choose("at", n + 2)
    gt = build(W, [ruleobj(r, "P%d" % k) for k, r in enumerate(rules)], class_of, by_class)
    kind, res = W.run(gt.match_at, i, toks)
    W.check(kind == "ok", "match_at raised")
    if kind != "ok":
        return
    W.observe(res)
    ok = [fits(W, r, toks, i, class_of) for r in rules]
    if res is None:
        W.cover("none")
        W.check(W.Not(W.Or(*ok)), "no match reported although a rule fits")
    else:
        W.cover("match")
        W.check(ok[res], "the returned rule does not fit")
        for k in range(len(rules)):
            if need(rules[k]) > need(rules[res]):
                W.check(W.Not(ok[k]), "a rule of lower cost fits")
