from hlib import *

META = {
    "bounds": {
        "quick": "11 ways of construction (constructor, from_dict, from_easyreading_dict, from_yaml, from_yaml_file, load of dump levels 0-2, loads of dumps levels 0-2) x ignore_errors absent/false/true x check_ambiguity absent/false/true x recorded ignore_errors x conflicting/overlapping/unrelated rules (symbolic rule tokens and a symbolic class where the route takes dictionaries), each then applied to every input of <=2 characters incl. unknown ones; from_yaml and from_yaml_file with the replacement of character names left as it is, on or off together with each of these",
        "thorough": "inputs of <=3 characters, 3 rules with symbolic tokens",
    },
    "outside": "bigger settings",
    "stubs": "json: texts kept as structures; yaml: concrete texts only, by PyYAML; files are virtual; re: backtracking matcher; logging is a no-op",
}
BUDGET = {"quick": 90, "thorough": 1500}
ROUTES = ["init", "dict", "easy", "yaml", "file", "load0", "load1", "load2", "loads0", "loads1", "loads2"]


def jobs(tier):
    big = tier == "thorough"
    return [{"route": r, "n": n, "rules": 3 if big else 2} for r in ROUTES for n in ((1, 2, 3) if big else (1, 2))
            ] + [{"names": r, "n": n} for r in ("yaml", "file") for n in (1, 2)]


def names(W, P):
    """The option for character names, given together with others."""
    from graphtransliterator import GraphTransliterator

    y = """tokens: {a: [x], b: [x], ' ': [w]}
rules: {a: '\\N{DIGIT ONE}', b: x, <x> a: P, a <x>: '\\N{DIGIT TWO}'}
whitespace: {default: ' ', token_class: w, consolidate: false}
"""
    opt = {}
    for name, key, default in (("charnames", "charnames_escaped", 1), ("ignore", "ignore_errors", 0),
                               ("check", "check_ambiguity", 1)):
        k = W.choose(name, 3)
        if k:
            opt[key] = k == 2
    if P["names"] == "file":
        kind, gt = W.run(GraphTransliterator.from_yaml_file, W.virtual_file("x.yaml", y), **opt)
    else:
        kind, gt = W.run(GraphTransliterator.from_yaml, y, **opt)
    W.observe([kind, gt if kind == "exc" else None])
    if opt.get("check_ambiguity", True):
        W.check(kind == "exc" and gt == "AmbiguousTransliterationRulesException", "ambiguity is not checked")
        return
    W.check(kind == "ok", "refused")
    if kind != "ok":
        return
    one, two = ("1", "2") if opt.get("charnames_escaped", True) else ("\\N{DIGIT ONE}", "\\N{DIGIT TWO}")
    s = {"tokens": {"a": ["x"], "b": ["x"], " ": ["w"]},
         "rules": [{"production": one, "tokens": ["a"]}, {"production": "x", "tokens": ["b"]},
                   {"production": "P", "prev_classes": ["x"], "tokens": ["a"]},
                   {"production": two, "tokens": ["a"], "next_classes": ["x"]}],
         "whitespace": {"default": " ", "token_class": "w", "consolidate": False}}
    text = W.string("s", P["n"], "ab?")
    ign = opt.get("ignore_errors", False)
    W.check(gt.ignore_errors == ign, "ignore_errors is not honoured")
    got = W.run(gt.transliterate, text)
    W.observe(list(got))
    W.check(list(got) == list(spec(s, text, ign)[0]), "the options are not honoured")
    W.cover("names")


def body(W, P):
    from graphtransliterator import GraphTransliterator

    if "names" in P:
        return names(W, P)
    route = P["route"]
    opt = {}
    o1 = W.choose("ignore option", 3)
    if o1:
        opt["ignore_errors"] = o1 == 2
    o2 = W.choose("check option", 3)
    if o2:
        opt["check_ambiguity"] = o2 == 2
    tokens = {"a": ["x"], "b": ["x"], " ": ["w", "x", "y"]}
    text = W.string("s", P["n"], "ab?")
    if route in ("easy", "yaml", "file"):
        # conflicting, overlapping in the tokens only, unrelated
        k = W.choose("rules", 3)
        t0, t1, c1 = [("a", "a", "y"), ("a", "b", "y"), ("a", "a", "w")][k]
        tokens[" "] = [["w", "x", "y"], ["w", "x", "y"], ["w"]][k]
        conflict = k == 0
        if k == 2:
            tokens["b"] = ["y"]
        pats = {"<x> " + t0: "P", "<%s> %s" % (c1, t1): "Q", "b": "B"}
        settings = {"tokens": tokens, "rules": pats,
                    "whitespace": {"default": " ", "token_class": "w", "consolidate": False}}
        if route == "easy":
            make = lambda: GraphTransliterator.from_easyreading_dict(settings, **opt)
        else:
            y = "tokens:\n" + "".join("  '%s': [%s]\n" % (t, ", ".join(c)) for t, c in tokens.items())
            y += "rules:\n" + "".join("  %s: %s\n" % p for p in pats.items())
            y += "whitespace:\n  default: ' '\n  token_class: w\n  consolidate: false\n"
            if route == "yaml":
                make = lambda: GraphTransliterator.from_yaml(y, **opt)
            else:
                f = W.virtual_file("x.yaml", y)
                make = lambda: GraphTransliterator.from_yaml_file(f, **opt)
        recorded = False
        check = opt.get("check_ambiguity", True)
    else:
        t0, t1 = W.char("t0", "ab"), W.char("t1", "ab")
        c1 = W.char("c1", "xyw")
        rules = [
            {"production": "P", "prev_classes": ["x"], "tokens": [t0]},
            {"production": "Q", "prev_classes": [c1], "tokens": [t1]},
            {"production": "B", "tokens": ["b"]},
        ]
        if P["rules"] == 3:
            rules.append({"production": "R", "tokens": [W.char("t2", "ab"), "a"]})
        settings = {"tokens": tokens, "rules": rules,
                    "whitespace": {"default": " ", "token_class": "w", "consolidate": False}}
        conflict = W.eq(t0, t1)  # every class here contains the blank
        if P["rules"] == 3:
            # rule 3 is as costly as the first two, and never before them
            t2 = rules[3]["tokens"][0]
            conflict = W.Or(conflict, W.eq(t2, t0), W.eq(t2, t1))
        recorded = False
        if route == "init":
            check = opt.get("check_ambiguity", True)
            o = dict(opt)
            o.setdefault("check_ambiguity", True)
            make = lambda: direct(settings, **o)
        elif route == "dict":
            check = opt.get("check_ambiguity", True)
            make = lambda: GraphTransliterator.from_dict(settings, **opt)
        else:
            recorded = W.flag("recorded")
            check = opt.get("check_ambiguity", False)
            src = direct(settings, ignore_errors=recorded)
            level = int(route[-1])
            if route.startswith("loads"):
                d = src.dumps(compression_level=level)
                make = lambda: GraphTransliterator.loads(d, **opt)
            else:
                d = src.dump(compression_level=level)
                make = lambda: GraphTransliterator.load(d, **opt)
    want_ign = opt.get("ignore_errors", recorded)
    kind, gt = W.run(make)
    W.observe([kind, gt if kind == "exc" else None])
    if kind == "exc":
        W.cover("refused")
        W.check(gt == "AmbiguousTransliterationRulesException", "unexpected exception")
        W.check(W.And(check, conflict), "refused as ambiguous without need")
        return
    W.check(W.Not(W.And(check, conflict)), "ambiguity is not checked")
    W.check(gt.ignore_errors == want_ign, "ignore_errors is not honoured")
    k, r = W.run(gt.transliterate, text)
    W.observe([k, r])
    unknown = W.Or(*[W.eq(c, "?") for c in text])
    if want_ign:
        W.cover("ignoring")
        W.check(k == "ok", "errors are not ignored")
    else:
        W.cover("strict")
        W.check(W.Implies(unknown, k == "exc"), "an error is ignored")
