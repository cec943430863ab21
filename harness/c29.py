from hlib import *

META = {
    "bounds": {
        "quick": "1 rule needing <=3 tokens (previous classes and tokens, tokens, next tokens and classes symbolic over 4 tokens and 3 classes), or an on-match rule with 1-3 previous and 1-3 next symbolic classes, or both, next to context-free rules for all tokens; the same next to a configuration with 42 rules and 14 on-match rules; every iteration order of classes with 2 members; before or after the transliterator was used, and after tests were generated for another one with the same names; the method on plain and coverage transliterators and the command line (json, json_file, yaml_file, bundled)",
        "thorough": "rules needing <=4, two symbolic rules, two on-match rules",
    },
    "outside": "transliterators that cannot transliterate one of the needed inputs; longer contexts; tokens whose concatenations tokenize otherwise are included only as far as 'ab' next to 'a' and 'b' shows",
    "stubs": "yaml: symbolic texts are kept as structures; re: backtracking matcher; click as in C26",
}
FUEL = 1000000
BUDGET = {"quick": 90, "thorough": 2400}
PRELOAD = ["graphtransliterator", "graphtransliterator.cli", "graphtransliterator.transliterators"]
TOKENS = {"a": ["x"], "b": ["y", "x"], "ab": ["y"], " ": ["w"]}


def jobs(tier):
    big = tier == "thorough"
    out = []
    for k, s in enumerate(shapes(4 if big else 3)):
        out.append({"shapes": [s], "how": "plain"})
        if big or sum(s) <= 2:
            out.append({"shapes": [s], "how": ["json", "json_file", "yaml_file", "coverage"][k % 4]})
    for m, n in itertools.product((1, 2, 3), repeat=2):
        if big or m + n < 5:
            out.append({"shapes": [], "om": [(m, n)], "how": ["plain", "coverage", "json"][(m + n) % 3]})
    out.append({"shapes": [(1, 0, 1, 0, 0)], "om": [(1, 1)], "how": "plain"})
    out.append({"shapes": [(0, 1, 1, 1, 0)], "om": [(1, 2)], "how": "yaml_file"})
    out.append({"shapes": [], "om": [(1, 1), (2, 1)], "how": "coverage"})
    out.append({"bundled": "Example"})
    for k, h in enumerate(("plain", "coverage", "json", "yaml_file")):
        out.append({"shapes": [(1, 0, 1, 0, 1)], "om": [(1, 1)] if k % 2 else [], "how": h, "after": 1})
    out.append({"many": 1, "how": "plain", "shapes": [(1, 0, 1, 0, 1)]})
    out.append({"many": 1, "how": "json", "shapes": [(0, 0, 1, 0, 1)]})
    if big:
        for a, b in itertools.combinations_with_replacement(shapes(2), 2):
            out.append({"shapes": [a, b], "om": [(1, 1)], "how": "plain"})
    return out


def easy_of(s):
    from c25 import easy

    return easy(s)


def body(W, P):
    from graphtransliterator import CoverageTransliterator, GraphTransliterator
    import graphtransliterator.cli
    import graphtransliterator.transliterators as bundled
    import yaml

    if "bundled" in P:
        gt = bundled.Example()
        kind, printed = W.cli(["generate-tests", "-f", "bundled", P["bundled"]])
        W.check(kind == "ok", "no tests are generated")
        if kind == "ok":
            judge(W, gt, yaml.safe_load(W.printed_text(printed)))
            judge(W, gt, yaml.safe_load(gt.generate_yaml_tests()))
        return
    how = P["how"]
    if "many" in P:
        # rules for all tokens, and contexts that need no particular tokens
        s = fixed(P)
        s["rules"] += [{"production": "L", "tokens": ["l"]}, {"production": " ", "tokens": [" "]},
                       ruledict(symrule(W, "r", tuple(P["shapes"][0]), "ad ", "xw"), "P0")]
        return generated(W, s, how)
    tokens = {k: list(v) for k, v in TOKENS.items()}
    if how == "yaml_file":
        tokens["_"] = tokens.pop(" ")
    names = "ab" + ("_" if how == "yaml_file" else " ")
    rules = []
    for k, sh in enumerate(P["shapes"]):
        rules.append(ruledict(symrule(W, "r%d" % k, tuple(sh), names, "xyw"), "P%d" % k))
    for t in tokens:
        rules.append({"production": t + "'", "tokens": [t]})
    s = {"tokens": tokens, "rules": rules,
         "whitespace": {"default": names[-1], "token_class": "w", "consolidate": False}}
    if "om" in P:
        s["onmatch_rules"] = [
            {"prev_classes": [W.char("om%d.p%d" % (k, j), "xyw") for j in range(m)],
             "next_classes": [W.char("om%d.n%d" % (k, j), "xyw") for j in range(n)],
             "production": "+"} for k, (m, n) in enumerate(P["om"])]
    if "after" in P:
        before(W, s, how)
    generated(W, s, how)


def before(W, s, how):
    """Tests generated before, for a transliterator with the same names."""
    import graphtransliterator.transliterators as bundled

    o = cp(s)
    if W.flag("earlier"):
        names = list(o["tokens"])
        o["tokens"] = dict(zip(names, [o["tokens"][t] for t in names[1:-1]] + [["x"], ["w"]]))
        o["rules"] = o["rules"][1:] + [{"production": "!", "tokens": ["a", "a"]}]
    else:
        for r in o["rules"]:
            r["production"] = r["production"] + "!"
    gt = direct(o)
    W.run(bundled.Bundled.generate_yaml_tests, gt)


def generated(W, s, how):
    from graphtransliterator import CoverageTransliterator, GraphTransliterator
    import graphtransliterator.transliterators as bundled
    import yaml

    if W.flag("order"):
        W.set_order(lambda xs: list(reversed(xs)))
    use = how in ("plain", "coverage") and W.flag("used")
    gt = GraphTransliterator.from_dict(s, check_ambiguity=False)
    if how in ("plain", "coverage"):
        g = gt
        if how == "coverage":
            g = direct(s, cls=CoverageTransliterator)
        if use:
            W.run(g.transliterate, "ab")
            W.run(bundled.Bundled.generate_yaml_tests, g)
        kind, text = W.run(bundled.Bundled.generate_yaml_tests, g)
    else:
        if how == "yaml_file":
            e = easy_of(s)
            W.on_yaml(lambda t: e)
            src = W.virtual_file("conf.yaml", "settings: here\n")
        else:
            src = gt.dumps()
            if how == "json_file":
                src = W.virtual_file("conf.json", src)
        kind, text = W.cli(["generate-tests", "--from", how, src])
        if how == "yaml_file":
            W.on_yaml(None)
        if kind == "ok":
            text = W.printed_text(text)
    W.set_order(None)
    W.check(kind == "ok", "no tests are generated")
    if kind != "ok":
        return
    W.cover(how)
    judge(W, gt, yaml.safe_load(text))


def judge(W, gt, tests):
    keys = list(tests)
    W.observe(sorted([str(gt.transliterate(k)) for k in keys]) if len(keys) < 4 else len(keys))
    for k in keys:
        kind, v = W.run(gt.transliterate, k)
        W.check(kind == "ok" and W.eq(v, tests[k]), "an output that transliterating does not give")
    for r in gt.rules:
        want = [(r.prev_classes, 1), (r.prev_tokens, 0), (r.tokens, 0), (r.next_tokens, 0), (r.next_classes, 1)]
        W.check(W.Or(*[made_of(W, gt, k, want) for k in keys]), "no test for a rule")
    for r in gt.onmatch_rules or []:
        want = [(r.prev_classes, 1), (r.next_classes, 1)]
        W.check(W.Or(*[made_of(W, gt, k, want) for k in keys]), "no test for an on-match rule")


def made_of(W, gt, key, want):
    """Formula: the text is made of these tokens, and one of each class."""
    ends = {0: True}
    for xs, classes in want:
        for x in xs or []:
            new = {}
            for i, c in ends.items():
                for t in gt.tokens:
                    j = i + len(t)
                    if j > len(key):
                        continue
                    ok = W.And(c, W.eq(key[i:j], t),
                               W.isin(x, gt.tokens[t]) if classes else W.eq(x, t))
                    new[j] = W.Or(new.get(j, False), ok)
            ends = new
    return ends.get(len(key), False)
