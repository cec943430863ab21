from hlib import *

META = {
    "bounds": {
        "quick": "a fixed transliterator with 10 rules and 3 on-match rules (overlapping rules, contexts, a multi-character token, a token without rule, a rule given twice) and 4 tiny ones with symbolic rules; every sequence of 1 earlier call (with inputs of <=2 symbolic characters) or 2 earlier calls (<=1 character) out of transliterate, tokenize, match_at (single and all), dump/dumps at every level, pruned_of, ambiguity check off/on flips of ignore_errors, refused calls; then every input of <=2 characters, compared with a fresh object; the same with one earlier call on a configuration with 42 rules; on 6 configurations with a rule needing 3-4 tokens of context, one earlier transliteration and then one, both of every input of 5 characters over 2",
        "thorough": "2 earlier calls with inputs of <=2 characters, then inputs of <=3 characters; 3 earlier calls with fixed inputs",
    },
    "outside": "longer histories or inputs; attributes changed from outside; last_input_tokens after a call whose tokenization failed (the documentation defines it for tokenized inputs only)",
    "stubs": "re: backtracking matcher; json: texts kept as structures; logging is a no-op",
}
BUDGET = {"quick": 90, "thorough": 2400}
OPS = ["translit", "tokenize", "match", "match_all", "dump", "dumps", "prune", "bad", "flip", "props", "other"]
OTHER = [{"production": "Z", "tokens": ["a"]}, {"production": "Y", "tokens": ["ab"]},
         {"production": "X", "tokens": ["b", "a"]}, {"production": "W", "tokens": ["b"]}]
ABC = "ab _?"
FAR = [{"prev_tokens": ["b", "a", "a"]}, {"prev_classes": ["y", "x", "x"]}, {"next_tokens": ["a", "a", "b"]},
       {"next_classes": ["x", "x", "y"]}, {"prev_classes": ["y", "x"], "next_tokens": ["a", "b"]},
       {"prev_tokens": ["b", "a"], "next_classes": ["x", "y"]}]


def jobs(tier):
    big = tier == "thorough"
    out = []
    for op in OPS:
        for n in range(4 if big else 3):
            out.append({"ops": [op], "h": 2, "n": n})
    for o1, o2 in itertools.product(OPS, repeat=2):
        out.append({"ops": [o1, o2], "h": 2 if big else 1, "n": 3 if big else 1})
    for op in ("translit", "match", "match_all", "flip", "bad"):
        for s in ((0, 0, 2, 0, 0), (1, 0, 1, 0, 1), (0, 1, 1, 1, 0)):
            out.append({"ops": [op], "h": 2 if big else 1, "n": 2, "shape": s})
    for op in OPS:
        out.append({"ops": [op], "h": 1, "n": 1, "many": 1})
    out.append({"ops": ["translit"], "h": 0, "n": 0, "many": 1, "long": 1})
    # rules with long contexts, and inputs in which they matter
    for op in ("translit", "flip") if big else ("translit",):
        for far in range(len(FAR)):
            out.append({"ops": [op], "h": 6 if big else 5, "n": 6 if big else 5, "far": far})
    return out


def act(W, gt, op, k, h, abc=ABC):
    if op == "translit":
        return W.run(gt.transliterate, W.string("h%d" % k, h, abc))
    if op == "tokenize":
        return W.run(gt.tokenize, W.string("h%d" % k, h, abc))
    if op in ("match", "match_all"):
        toks = [" "] + [W.char("h%d" % k, "ab ")] * h + [" "]
        return W.run(gt.match_at, 1, toks, match_all=op == "match_all")
    if op == "dump":
        return W.run(gt.dump, compression_level=W.choose("lvl%d" % k, 3))
    if op == "dumps":
        return W.run(gt.dumps, compression_level=W.choose("lvl%d" % k, 3))
    if op == "prune":
        p = W.run(gt.pruned_of, ["A", "B", "C"][W.choose("pr%d" % k, 3)])
        if p[0] == "ok":
            W.run(p[1].transliterate, "ab")
        return p
    if op == "bad":
        return W.run(gt.dump, compression_level=7)
    if op == "flip":
        gt.ignore_errors = not gt.ignore_errors
        W.run(gt.transliterate, W.string("h%d" % k, h, abc))
        gt.ignore_errors = not gt.ignore_errors
        return None
    if op == "other":
        # another transliterator with the same tokens and other rules
        o = direct(dict(SETTINGS, rules=OTHER, onmatch_rules=None), ignore_errors=True)
        W.run(o.transliterate, W.string("h%d" % k, h, abc))
        return W.run(o.match_at, 1, [" ", "a", "b", " "])
    if op == "props":
        return [gt.productions, gt.rules, gt.tokens, gt.graph, gt.tokens_by_class,
                gt.onmatch_rules_lookup, gt.last_matched_rules, gt.last_matched_rule_tokens,
                gt.metadata, gt.whitespace, gt.tokenizer_pattern, gt.graphtransliterator_version]
    raise AssertionError(op)


def body(W, P):
    ign = W.flag("ignore") if "far" not in P else False
    conf = fixed(P)
    abc = ABC
    if "far" in P:
        conf = {
            "tokens": {"a": ["x"], "b": ["y"], " ": ["w"]},
            "rules": [{"production": "A", "tokens": ["a"]}, {"production": "B", "tokens": ["b"]},
                      dict(FAR[P["far"]], production="!", tokens=["a"])],
            "whitespace": {"default": " ", "token_class": "w", "consolidate": False}}
        abc = "ab"
    # a rule given twice
    conf["rules"] = conf["rules"] + [conf["rules"][0]]
    if "shape" in P:
        r = symrule(W, "r", tuple(P["shape"]), "ab ", "xy")
        # first, so that it has priority among rules of equal cost
        conf["rules"] = [ruledict(r, "S")] + conf["rules"]
    gt, fresh = direct(conf, ignore_errors=ign), direct(conf, ignore_errors=ign)
    before = config(fresh)
    for k, op in enumerate(P["ops"]):
        act(W, gt, op, k, P["h"], abc)
    s = fixed_text(W, P, "s", P["n"], abc)
    r1 = W.run(gt.transliterate, s)
    r2 = W.run(fresh.transliterate, s)
    want = spec(conf, s, ign)[0]
    if "shape" not in P:  # (there, equally costly rules may compete)
        W.check(W.eq(list(r1), list(want)), "the result is not the documented one")
    W.observe([r1[0], r1[1]])
    W.cover(r1[0])
    W.check(W.eq(list(r1), list(r2)), "the result depends on earlier calls")
    if r2 != ("exc", "UnrecognizableInputTokenException"):
        W.check(W.eq(gt.last_input_tokens, fresh.last_input_tokens), "last_input_tokens depends on earlier calls")
        W.check(W.eq(gt.last_matched_rules, fresh.last_matched_rules), "last_matched_rules depends on earlier calls")
        W.check(W.eq(gt.last_matched_rule_tokens, fresh.last_matched_rule_tokens), "last_matched_rule_tokens depends on earlier calls")
    for k, c in same_config(W, config(gt), before):
        W.check(c, "a call changed the transliterator: " + k)
