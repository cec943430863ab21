from hlib import *

META = {
    "bounds": {
        "quick": "3 rules (context-free, with context, equal shapes) with productions of 0-2 symbolic Unicode characters, possibly equal; pruning by one string of 0-2 symbolic characters, by lists of 0-2 such strings, or by the rules' own productions; plain and coverage-tracking originals, errors ignored or not (also changed after construction), ambiguity checked or not, on-match rules, metadata; all settings compared in full; every input of <=2 characters; pruning twice; the fixed 10-rule configuration by every pair of its productions, and one of 42 rules by up to all of its productions",
        "thorough": "productions of 0-3 characters, inputs of <=3 characters, 4 rules",
    },
    "outside": "more rules, longer productions",
    "stubs": "re: backtracking matcher; logging is a no-op",
}
BUDGET = {"quick": 90, "thorough": 2400}


def jobs(tier):
    big = tier == "thorough"
    L = (0, 1, 2, 3) if big else (0, 1, 2)
    out = []
    for ls in itertools.product(L, repeat=3):
        for a in L:
            if not big and sum(ls) + a > 4:
                continue
            out.append({"prods": list(ls), "args": [a], "form": "str"})
            out.append({"prods": list(ls), "args": [a], "form": "list"})
    for ls in ([1, 1, 1], [2, 1, 1], [2, 2, 1], [1, 0, 1]):
        for form in ("list",):
            for a in ([], [1, 1], [1, 2], [0, 1]):
                out.append({"prods": ls, "args": a, "form": form})
    out.append({"fixed": 1, "n": 3 if big else 2})
    out.append({"fixed": 1, "n": 2, "twice": 1})
    out.append({"fixed": 1, "n": 1, "many": 1})
    if big:
        out.append({"fixed": 1, "n": 0, "many": 1, "long": 1})
    out.append({"fixed": 1, "n": 1, "flip": 1})
    out.append({"check": 1, "n": 2})
    return out


def apply_(gt, arg):
    return gt.pruned_of(arg)


def body(W, P):
    from graphtransliterator import CoverageTransliterator, GraphTransliterator

    ign = W.flag("ignore")
    if "fixed" in P:
        s = fixed(P)
        n = P["n"]
        names = sorted(set(r["production"] for r in s["rules"])) + ["zz"]
        if "many" in P:
            # nothing, one production, every other, all, all of some kind
            arg = W.choose("prune", [[], ["a10"], names[::2], names, [x for x in names if x[0] in "ab"]])
            gone = arg
        else:
            p1, p2 = W.choose("first", names), W.choose("second", names)
            arg = [p1, p2]
            gone = arg
            if p1 == p2:
                arg = p1
    elif "check" in P:
        n = P["n"]
        c = [W.char("c%d" % k, "xw") for k in range(3)]
        s = {"tokens": {"a": ["x"], "b": [], " ": ["w", "x"]},
             "rules": [{"production": "3", "tokens": ["a"], "prev_classes": [c[0]], "next_classes": ["x"]},
                       {"production": "1", "tokens": ["a"], "prev_classes": [c[1]]},
                       {"production": "2", "tokens": ["a"], "next_classes": [c[2]]},
                       {"production": "b", "tokens": ["b"]}],
             "whitespace": {"default": " ", "token_class": "w", "consolidate": False}}
        arg = W.choose("prune", ["3", "1", "b"])
        gone = [arg]
    else:
        n = 1
        pr = [W.string("out%d" % k, m) for k, m in enumerate(P["prods"])]
        s = {"tokens": {"a": ["x"], "b": ["y"], " ": ["w"]},
             "rules": [{"production": pr[0], "tokens": ["a", "b"]},
                       {"production": pr[1], "tokens": ["a"]},
                       {"production": pr[2], "tokens": ["b"]}],
             "onmatch_rules": [{"prev_classes": ["x"], "next_classes": ["y"], "production": ","}],
             "metadata": {"k": "v"},
             "whitespace": {"default": " ", "token_class": "w", "consolidate": False}}
        args = [W.string("arg%d" % k, m) for k, m in enumerate(P["args"])]
        gone = args
        arg = {"str": lambda: args[0], "list": lambda: list(args), "tuple": lambda: tuple(args),
               "set": lambda: set(args)}[P["form"]]()
    cls = CoverageTransliterator if W.flag("coverage") else GraphTransliterator
    check = "check" in P
    kind, gt = W.run(direct, s, ignore_errors=ign, check_ambiguity=check, cls=cls)
    if kind == "exc":
        W.cover("ambiguous")
        W.check(check, "cannot be built")
        return
    if "flip" in P:
        # (changed after it was made, and used)
        if W.flag("used"):
            W.run(apply_, gt, arg)
            W.run(gt.transliterate, "?a")
        ign = not ign
        gt.ignore_errors = ign
    before = config(gt)
    kind, res = W.run(apply_, gt, arg)
    if "twice" in P and kind == "ok":
        kind, res = W.run(apply_, res, "ba$")
        gone = gone + ["ba$"]
    for k, c in same_config(W, config(gt), before):
        W.check(c, "the original changed: " + k)
    kept = []
    for r in s["rules"]:
        if not W.isin(r["production"], gone):
            kept.append(r)
    kind2, want = W.run(direct, dict(s, rules=kept), ignore_errors=ign, check_ambiguity=check)
    W.observe([kind, len(kept)])
    W.check(kind == kind2, "pruning fails")
    if kind == "exc" or kind2 == "exc":
        W.cover("pruned to ambiguity")
        return
    W.cover("pruned %d" % (len(s["rules"]) - len(kept)))
    for k, c in same_config(W, config(res), config(want)):
        W.check(c, "not the transliterator of the other rules: " + k)
    t = fixed_text(W, P, "s", n, "ab ")
    r1, r2 = W.run(res.transliterate, t), W.run(want.transliterate, t)
    W.observe(list(r1))
    W.check(W.eq(list(r1), list(r2)), "transliterates differently")
