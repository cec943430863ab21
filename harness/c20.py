from hlib import *

META = {
    "bounds": {
        "quick": "settings whose token strings, rule lists and on-match class lists may be empty: 2 token strings of 0-2 symbolic Unicode characters, 1-2 rules with 0-2 symbolic tokens and context, an on-match rule with 0-2 previous and next classes, any token as default whitespace, consolidation on or off; easy-reading rules with every key of <=4 characters over 'a', blank, brackets and parentheses; every input of <=2-3 symbolic characters, errors ignored or not; inputs of 4000 characters, of which 1-2 adjacent ones at the start, in the middle or at the end are symbolic; tokenize, transliterate and every match_at position",
        "thorough": "keys of <=6 characters, inputs of <=4 characters",
    },
    "outside": "bigger settings; custom costs; settings given directly to the constructor",
    "stubs": "re: backtracking matcher; logging is a no-op; marshmallow runs instrumented",
    "assumptions": ["a run of more than 60000 instrumented steps is replayed as a possible hang"],
}
BUDGET = {"quick": 90, "thorough": 2400}
FUEL = 60000


def jobs(tier):
    big = tier == "thorough"
    out = []
    n = 3 if big else 2
    for l1, l2 in itertools.product((0, 1, 2), repeat=2):
        out.append({"kind": "tokens", "lens": [l1, l2], "n": n})
    for m in (0, 1, 2):
        for ctx in (0, 1, 2, 3):
            out.append({"kind": "rules", "m": m, "ctx": ctx, "n": n})
    for m, k in itertools.product((0, 1, 2), repeat=2):
        out.append({"kind": "onmatch", "prev": m, "next": k, "n": n})
    for k in range(7 if big else 5):
        out.append({"kind": "key", "len": k, "n": 2})
    out.append({"kind": "any", "n": n + 1})
    # long inputs, as any limit on depth or a superlinear algorithm matters there only
    for pre in ("a", "ab ", "?", "a "):
        out.append({"kind": "long", "pre": pre, "len": 4000, "n": 1 if pre != "a" else 2, "fuel": 3000000})
    return out


def long(W, P):
    """A long text with some symbolic characters at its start, in it or at its end."""
    from graphtransliterator import GraphTransliterator

    gt = GraphTransliterator.from_dict({
        "tokens": {"a": ["x"], "b": ["y"], " ": ["w"]},
        "rules": [{"production": "A", "tokens": ["a"]}, {"production": "B", "tokens": ["b"], "prev_classes": ["x"]},
                  {"production": " ", "tokens": [" "]}],
        "onmatch_rules": [{"prev_classes": ["x"], "next_classes": ["x"], "production": ","}],
        "whitespace": {"default": " ", "token_class": "w", "consolidate": P["pre"] == "a "},
    }, ignore_errors=W.flag("ignore") if P["pre"] != "?" else True)
    t = P["pre"] * (P["len"] // len(P["pre"]))
    k = W.choose("at", [0, len(t) // 2, len(t)])
    t = t[:k] + W.string("s", P["n"], "ab ?") + t[k:]
    k1, r1 = W.run(gt.transliterate, t)
    W.observe([k1, r1])
    W.check(k1 == "ok" or r1 in ("UnrecognizableInputTokenException", "NoMatchingTransliterationRuleException"),
            "transliterate crashes")
    W.cover("long " + k1)


def body(W, P):
    if P["kind"] == "long":
        return long(W, P)
    from graphtransliterator import GraphTransliterator

    kind = P["kind"]
    n = P["n"]
    ign = W.flag("ignore")
    cons = False
    tokens = {"a": ["x"], "b": ["y"], " ": ["w"]}
    rules = [{"production": "A", "tokens": ["a"]}, {"production": "B", "tokens": ["b"]}]
    s = {"tokens": tokens, "rules": rules}
    default = " "
    degenerate = False
    ab = "ab ?"
    if kind == "tokens":
        t1, t2 = W.string("t1", P["lens"][0]), W.string("t2", P["lens"][1])
        tokens = {t1: ["x"], t2: [], " ": ["w"]}
        s = {"tokens": tokens,
             "rules": [{"production": "A", "tokens": [t1]},
                       {"production": "B", "tokens": [" "], "prev_tokens": [t2]}]}
        degenerate = 0 in P["lens"]
        cons = W.flag("cons")
        ab = None
    elif kind == "rules":
        r = {"production": "", "tokens": [W.char("t%d" % k, "ab ") for k in range(P["m"])]}
        c = P["ctx"]
        if c in (1, 3):
            r["prev_tokens"] = [W.char("p", "ab ")]
        if c in (2, 3):
            r["next_classes"] = [W.char("c", "xyw")]
        s["rules"] = [r, rules[0]]
        degenerate = P["m"] == 0
    elif kind == "onmatch":
        s["onmatch_rules"] = [{
            "prev_classes": [W.char("p%d" % k, "xyw") for k in range(P["prev"])],
            "next_classes": [W.char("n%d" % k, "xyw") for k in range(P["next"])],
            "production": ""}]
        degenerate = P["prev"] == 0 or P["next"] == 0
    elif kind == "key":
        key = W.string("key", P["len"], "a <>()")
        s["rules"] = {key: "K"}
        tokens = s["tokens"] = {"a": ["a"], " ": ["w"]}
    else:
        default = W.choose("default", ["a", "b", " "])
        cons = W.flag("cons")
        tokens["b"] = list(W.choose("classes", [["w"], [], ["x", "w"]]))
        s["rules"] = rules = []
        for k, p in enumerate(["a", "b", " "]):
            if W.flag("rule %d" % k):
                rules.append({"production": "", "tokens": [p]})
    s["whitespace"] = {"default": default, "token_class": "w", "consolidate": cons}
    if kind == "key":
        made, gt = W.run(GraphTransliterator.from_easyreading_dict, s, ignore_errors=ign,
                         check_ambiguity=False)
    else:
        made, gt = W.run(GraphTransliterator.from_dict, s, ignore_errors=ign,
                         check_ambiguity=False)
    W.observe([made, gt if made == "exc" else None])
    if made == "exc":
        W.cover("refused")
        W.check(kind == "key" or gt == "ValidationError", "another error than a validation error")
        W.check(kind == "key" or degenerate, "refused although nothing is wrong")
        return
    W.check(not degenerate, "degenerate settings are accepted")
    W.cover("accepted")
    t = W.string("s", n, ab)
    ok = ("UnrecognizableInputTokenException", "NoMatchingTransliterationRuleException")
    k1, r1 = W.run(gt.tokenize, t)
    W.observe([k1, r1])
    W.check(k1 == "ok" or r1 == ok[0], "tokenize crashes")
    k2, r2 = W.run(gt.transliterate, t)
    W.observe([k2, r2])
    W.check(k2 == "ok" or r2 in ok, "transliterate crashes")
    if k1 == "ok":
        for i in range(len(r1)):
            k3, r3 = W.run(gt.match_at, i, r1)
            W.check(k3 == "ok", "match_at crashes")
            k3, r3 = W.run(gt.match_at, i, r1, match_all=True)
            W.check(k3 == "ok", "match_at crashes")
