from hlib import *

TOK = "ab "
CLS = "bw"  # one is named like a token
META = {
    "bounds": {
        "quick": "all pairs of rules needing <=2 tokens and all single rules needing <=3 with symbolic tokens and classes over 3 tokens and 2 classes (one named like a token), productions of 0-2 symbolic characters, every input of <=3 characters; no rules at all; plus a fixed 13-rule grammar with overlapping rules and a multi-character token, every input of <=5 characters over its alphabet; a conflict-free configuration with more than ten tokens, classes, nodes and equally costly rules of the same tokens and a rule of 12 tokens: inputs of <=2 characters, and one of 20 characters with one, anywhere, symbolic, and one of 1100 with one of three symbolic; consolidation on/off, errors ignored or not",
        "thorough": "pairs needing <=3, triples needing <=2, inputs of <=4; the fixed grammar with inputs of <=7",
    },
    "outside": "more rules or longer inputs; on-match rules (C06)",
    "stubs": "re: backtracking matcher; logging is a no-op",
}
BUDGET = {"quick": 90, "thorough": 2400}


def jobs(tier):
    big = tier == "thorough"
    out = [{"fixed": n} for n in range(8 if big else 6)] + [{"shapes": [], "n": n} for n in (1, 2)]
    out += [{"many": 1, "n": n} for n in ((1, 2, 3) if big else (1, 2))] + [{"many": 1, "n": 0, "long": 1}, {"many": 1, "n": 0, "huge": 55, "fuel": 3000000}]
    for s in shapes(3):
        out.append({"shapes": [s], "n": 4 if big else 3})
    for s1, s2 in itertools.product(shapes(2), repeat=2):
        out.append({"shapes": [s1, s2], "n": 4 if big else 3})
    if big:
        for s1, s2 in itertools.product(shapes(3), repeat=2):
            out.append({"shapes": [s1, s2], "n": 3})
        for t in itertools.combinations_with_replacement(shapes(2), 3):
            out.append({"shapes": list(t), "n": 3})
    return out


# the grammar of the documentation's examples, extended with overlaps
FIXED = [
    ("1", [], [], ["a"], [], []), ("2", [], [], ["b"], [], []), ("3", [], [], ["ab"], [], []),
    ("4", [], [], [" "], [], []), ("5", ["x"], [], ["a"], [], []), ("6", [], ["b"], ["a"], [], []),
    ("7", [], [], ["a"], [], ["w"]), ("8", [], [], ["a", "a"], [], []),
    ("9", ["w"], ["b"], ["b"], [], []), ("0", [], [], ["b"], ["a"], ["x"]),
    ("=", ["w"], [], ["a", "b"], [], []), ("-", [], ["ab"], ["ab"], [], []),
    ("", [], ["a"], [" "], [], []),
]
FIXED_TOK = {"a": {"x"}, "b": set(), "ab": {"x", "y"}, " ": {"w"}}


def fixed_rules():
    rs = [dict(zip(PARTS, r[1:]), production=r[0]) for r in FIXED]
    rs.sort(key=lambda r: -need(r))
    return rs


def compose(W, gt2, s):
    """The composition of best matches, by an untouched second transliterator."""
    toks = gt2.tokenize(s)
    i, keys, out = 1, [], ""
    missing, first = False, None
    while i < len(toks) - 1:
        k = gt2.match_at(i, toks)
        if k is None:
            if not missing:
                first = len(keys)
            missing = True
            i += 1
            continue
        keys.append(k)
        out += gt2.rules[k].production
        i += len(gt2.rules[k].tokens)
    return toks, keys, out, missing, first


def body(W, P):
    from graphtransliterator import GraphTransliterator, WhitespaceRules

    ign = W.flag("ignore")
    cons = W.flag("consolidate")
    if "fixed" in P:
        rules = [ruleobj(r, r["production"]) for r in fixed_rules()]
        n = P["fixed"]

        def make():
            return GraphTransliterator(
                {k: set(v) for k, v in FIXED_TOK.items()}, list(rules),
                WhitespaceRules(default=" ", token_class="w", consolidate=cons),
                check_ambiguity=False, ignore_errors=ign)
    elif "many" in P:
        def make():
            s = fixed(P, onmatch_rules=None)
            s["whitespace"]["consolidate"] = cons
            return direct(s, ignore_errors=ign)
    else:
        sh = [tuple(s) for s in P["shapes"]]
        rules = [ruleobj(r, W.string("p%d" % k, (1, 2, 0)[k]))
                 for k, r in enumerate(symrules(W, sh, TOK, CLS))]
        class_of, by_class = W.relation("cls", list(TOK), list(CLS), {" ": ["w"]})
        n = P["n"]

        def make():
            return build(W, list(rules), class_of, by_class, consolidate=cons, ignore_errors=ign)

    gt, gt2 = make(), make()
    s = fixed_text(W, P, "s", P["n"]) if "many" in P else W.string("s", n, TOK)
    kind, res = W.run(gt.transliterate, s)
    W.observe([kind, res])
    k2, r2 = W.run(compose, W, gt2, s)
    if k2 == "exc":
        W.check(kind == "exc", "tokens cannot be recognized, but there is a result")
        return
    toks, keys, out, missing, first = r2
    if missing and not ign:
        W.check(kind == "exc", "a position has no rule, but there is a result")
        W.check(W.eq(gt.last_input_tokens, toks), "last input tokens, after an error")
        W.check(W.eq(gt.last_matched_rules, [gt2.rules[k] for k in keys[:first]]), "last matched rules, after an error")
        return
    W.cover("%d rules" % len(keys))
    W.check(kind == "ok", "raised although every position has a rule")
    if kind != "ok":
        return
    W.check(W.eq(res, out), "output is not the composition of the matched productions")
    W.check(W.eq(gt.last_input_tokens, toks), "last input tokens")
    W.check(W.eq(gt.last_matched_rules, [gt2.rules[k] for k in keys]), "last matched rules")
    W.check(W.eq(gt.last_matched_rule_tokens, [gt2.rules[k].tokens for k in keys]), "last matched rule tokens")
