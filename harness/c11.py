from hlib import *

META = {
    "bounds": {
        "quick": "settings with 1 rule needing <=3 tokens or 2 rules needing <=2 (rule tokens and classes symbolic over 3 tokens and 2 classes, productions of 0-2 arbitrary Unicode characters), settings with a token and a class named by 1-3 and 1-2 arbitrary characters, 0-2 on-match rules with <=2+<=2 symbolic classes, variants of token classes, absent/empty/null parts, metadata (none, empty, symbolic string, nested), consolidation, ignore_errors, custom costs, rules needing 1-24 tokens, after any other use of the transliterator and a change of ignore_errors; dump as data and as JSON text, every subset of the optional derived entries dropped; settings and graph compared in full, and every input of <=2 characters transliterated by both",
        "thorough": "2 rules needing <=3, 3 rules needing <=2; inputs of <=3 characters",
    },
    "outside": "bigger settings; the JSON text encoding itself (json is modelled as a structure-preserving encoding with string keys), checked concretely on the validated paths",
    "stubs": "json: texts kept as structures; re: backtracking matcher; logging is a no-op; marshmallow runs as is, instrumented",
}
BUDGET = {"quick": 90, "thorough": 2400}
OPTIONAL = ["onmatch_rules_lookup", "tokens_by_class", "graph", "tokenizer_pattern", "graphtransliterator_version"]


def conf_jobs(tier):
    big = tier == "thorough"
    out = []
    for s in shapes(4 if big else 3):
        out.append({"shapes": [s]})
    sh = shapes(3) if big else [(0, 0, 2, 0, 0), (1, 0, 1, 0, 0), (0, 0, 1, 1, 0), (0, 0, 1, 0, 0)]
    for s1, s2 in itertools.combinations_with_replacement(sh, 2):
        out.append({"shapes": [s1, s2]})
    one = (0, 0, 1, 0, 0)
    full = (1, 1, 1, 1, 1)
    out += [
        {"shapes": [full]},
        {"shapes": [one], "om": [(1, 1)]}, {"shapes": [one], "om": [(2, 2)]},
        {"shapes": [one], "om": [(1, 1), (1, 1)]}, {"shapes": [one], "om": [(2, 1), (1, 2)]},
        {"shapes": [one], "vary": "meta cons"}, {"shapes": [one], "vary": "classes cons"},
        {"shapes": [one], "vary": "empty"}, {"shapes": [(1, 0, 1, 0, 0)], "vary": "classes"},
        {"shapes": [one], "om": [(1, 1)], "vary": "meta classes"},
        {"shapes": []}, {"shapes": [], "vary": "meta"},
        {"shapes": [one, full]},
    ]
    out += [{"needs": 60 if big else 24}]
    out += [{"names": n} for n in ([1, 1], [2, 1], [1, 2], [3, 2]) + (([2, 2], [4, 3]) if big else ())]
    return out


def jobs(tier):
    big = tier == "thorough"
    out = [dict(c, route=r) for c in conf_jobs(tier) for r in ("data", "text")]
    for k in range(len(OPTIONAL) + 1):
        for drop in itertools.combinations(OPTIONAL, k):
            out.append({"fixed": 1, "drop": drop, "route": "data" if k % 2 else "text", "n": 3 if big else 2})
    out.append({"fixed": 1, "drop": [], "route": "text", "n": 2})
    for r in ("data", "text"):
        out.append({"fixed": 1, "drop": [], "route": r, "n": 2, "many": 1})
        out.append({"fixed": 1, "drop": OPTIONAL, "route": r, "n": 1, "many": 1, "long": 1})
        out.append({"fixed": 1, "drop": [], "route": r, "n": 1, "flip": 1})
    out.append({"costs": 1, "shapes": [(0, 0, 1, 0, 0), (0, 0, 2, 0, 0)], "route": "data"})
    out.append({"costs": 1, "shapes": [(0, 0, 1, 0, 0), (0, 0, 2, 0, 0)], "route": "text"})
    return out


def body(W, P):
    import json
    from graphtransliterator import GraphTransliterator

    ign = W.flag("ignore")
    if "fixed" in P:
        s = fixed(P)
    else:
        s = symsettings(W, P)
    if "costs" in P:
        for k, r in enumerate(s["rules"]):
            r["cost"] = W.choose("cost%d" % k, [0, 0.25, 0.5, 1.0])
    gt = GraphTransliterator.from_dict(s, ignore_errors=ign, check_ambiguity=False)
    if "flip" in P:
        used(W, gt)
    before = config(gt)
    if P["route"] == "data":
        d = gt.dump()
        for k in P.get("drop", ()):
            d.pop(k, None)
        kind, gt2 = W.run(GraphTransliterator.load, d)
    else:
        d = gt.dumps(compression_level=0)
        if P.get("drop"):
            d = json.loads(d)
            for k in P["drop"]:
                d.pop(k, None)
            d = json.dumps(d)
        kind, gt2 = W.run(GraphTransliterator.loads, d)
    W.check(kind == "ok", "the dump cannot be loaded")
    if kind != "ok":
        return
    W.cover(P["route"])
    for k, c in same_config(W, config(gt2), before):
        W.check(c, "loaded transliterator differs: " + k)
    for k, c in same_config(W, config(gt), before):
        W.check(c, "dumping changed the transliterator: " + k)
    W.observe(gt2.productions)
    if "n" in P:
        t = fixed_text(W, P, "s", P["n"])
        r1, r2 = W.run(gt.transliterate, t), W.run(gt2.transliterate, t)
        W.observe(list(r1))
        W.check(W.eq(list(r1), list(r2)), "transliterates differently")
