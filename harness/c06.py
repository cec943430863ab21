from hlib import *

TOK = "ab "
CLS = "bw"  # one is named like a token
META = {
    "bounds": {
        "quick": "1 on-match rule with <=3+<=3 classes, pairs with <=2+<=2 and triples with <=1+<=2 classes (one named like a token) (both directions), every class symbolic over 2 classes (one of them the whitespace class) and class memberships of 3 tokens symbolic (for pairs and triples of on-match rules the whitespace class is fixed), a few with some tokens lacking rules and an unknown character, errors ignored; every input of <=3 tokens (2 for triples and the longest pairs), rules for single tokens and for one two-token sequence (its second token symbolic for single on-match rules); a configuration with 42 rules and 14 on-match rules (up to 4+3 classes; several apply at once), inputs of <=2 characters and one of 20 characters with one, anywhere, symbolic, and one of 1100 with one of three symbolic; single on-match rules of 1+1 and 2+1 classes and a pair also with empty productions",
        "thorough": "pairs with <=3+<=3 classes, triples with <=2+<=2, inputs of <=4 tokens",
    },
    "outside": "more on-match rules, classes or longer inputs",
    "stubs": "re: backtracking matcher; logging is a no-op",
}
BUDGET = {"quick": 90, "thorough": 2400}


def jobs(tier):
    big = tier == "thorough"
    out = []
    m = 3
    d = [(p, q) for p in range(1, m + 1) for q in range(1, m + 1)]
    n = 4 if big else 3
    for x in d:
        out.append({"om": [x], "n": n})
    small = [x for x in d if max(x) < 3]
    for x, y in itertools.product(d if big else small, repeat=2):
        out.append({"om": [x, y], "n": 3 if big or sum(x + y) < 6 else 2})
    if big:
        tri = list(itertools.product(small, repeat=3))
    else:
        tri = [[(1, 1)] * 3, [(2, 1), (1, 1), (1, 2)]]
    for t in tri:
        out.append({"om": list(t), "n": 3 if big else 2})
    # productions that may be empty
    for x in ([(1, 1)], [(2, 1)], [(1, 1), (1, 1)]):
        out.append({"om": x, "n": 2, "empty": 1})
    # tokens without a rule and unknown characters, ignored
    for x in ([(1, 1)], [(2, 1)], [(1, 2)], [(1, 1), (1, 1)]):
        out.append({"om": x, "n": 4 if big else 3, "skip": 1})
    out += [{"many": 1, "n": n} for n in ((1, 2, 3) if big else (1, 2))] + [{"many": 1, "n": 0, "long": 1}, {"many": 1, "n": 0, "huge": 55, "fuel": 3000000}]
    return out


def many(W, P):
    """14 on-match rules, of which several apply at once."""
    ign = W.flag("ignore")
    s = fixed_text(W, P, "s", P["n"])
    gt = direct(MANY, ignore_errors=ign)
    r = W.run(gt.transliterate, s)
    W.observe(list(r))
    W.cover("many")
    W.check(W.eq(list(r), list(spec(MANY, s, ign)[0])), "on-match productions")


def body(W, P):
    if "many" in P:
        return many(W, P)
    from graphtransliterator import OnMatchRule, TransliterationRule

    # in pairs and triples the whitespace class has only the whitespace token
    several = len(P["om"]) > 1
    class_of, by_class = W.relation("cls", list(TOK), [CLS[0]] if several else list(CLS), {" ": ["w"]})
    oms = []
    for k, (p, q) in enumerate(P["om"]):
        oms.append(OnMatchRule(
            [W.char("om%d.p%d" % (k, j), CLS) for j in range(p)],
            [W.char("om%d.n%d" % (k, j), CLS) for j in range(q)],
            W.choose("out%d" % k, ["", "QRS"[k]]) if "empty" in P and not k else "QRS"[k]))
    pair = ["a", "b"] if several else ["a", W.char("r1", TOK)]
    empty = W.flag("empty") if "empty" in P else False
    rules = [TransliterationRule("2", None, None, pair, None, None, cost(2))]
    skip = "skip" in P
    rules += [TransliterationRule("" if empty and t == "a" else t.upper(), None, None, [t], None, None, cost(1))
              for t in ("a" if skip else TOK)]
    gt = build(W, rules, class_of, by_class, onmatch_rules=list(oms), ignore_errors=skip)
    s = W.string("s", P["n"], TOK + "?" if skip else TOK)
    kind, res = W.run(gt.transliterate, s)
    W.observe([kind, res])
    W.check(kind == "ok", "raised")
    if kind != "ok":
        return
    toks = gt.last_input_tokens
    i = 1
    want = ""
    applied = 0
    for rule in gt.last_matched_rules:
        while skip and gt.match_at(i, toks) is None:
            i += 1
        for om in oms:
            lo, hi = i - len(om.prev_classes), i + len(om.next_classes)
            if lo < 0 or hi > len(toks):
                continue
            c = [W.isin(x, class_of[t]) for x, t in zip(om.prev_classes, toks[lo:i])]
            c += [W.isin(x, class_of[t]) for x, t in zip(om.next_classes, toks[i:hi])]
            if W.And(*c):
                want += om.production
                applied += 1
                break
        want += rule.production
        i += len(rule.tokens)
    W.check(skip or i >= len(toks) - 1, "reported rules do not cover the input")
    W.cover("%d applied" % applied)
    W.check(W.eq(res, want), "on-match productions")
