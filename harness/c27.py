from hlib import *

META = {
    "bounds": {
        "quick": "every bundled transliterator; settings in full; every input of <=2 characters over all Unicode scalar values (ITRANS: of 1 character, and of 2 characters whose first or second is one of 10 representative characters; the other arbitrary), inputs of 1 character between 3 fixed contexts; coverage tracking on or off on either side, errors ignored or not, ambiguity checked or not; the first time or after others were made; the iteration over all of them with 5 sets of options; dumps (every level, loaded again) and prunings (by one of 6 productions) of each from YAML or JSON",
        "thorough": "every input of <=3 characters (ITRANS: <=2)",
    },
    "outside": "longer inputs",
    "stubs": "files and YAML/JSON texts are read natively (they are concrete); re: backtracking matcher; logging is a no-op",
}
BUDGET = {"quick": 90, "thorough": 2400}
FUEL = 20000000
PRELOAD = ["graphtransliterator", "graphtransliterator.transliterators"]
NAMES = ["Example", "ITRANSDevanagariToUnicode"]
REP = {"Example": "ab", "ITRANSDevanagariToUnicode": "akhM.R ~_0"}


def jobs(tier):
    big = tier == "thorough"
    out = [{"list": 1}] + [{"list": 1, "opts": k} for k in range(5)]
    out += [{"name": k, "derive": m} for k in range(len(NAMES)) for m in range(4)]
    for k in range(len(NAMES)):
        out.append({"name": k, "n": 0, "settings": 1})
        for cov in itertools.product((0, 1), repeat=2):
            out.append({"name": k, "n": 1, "cov": cov})
        out.append({"name": k, "n": 1, "cov": [0, 1], "opts": 1})
        if not k:
            for n in (2, 3, 4) if big else (2, 3):
                out.append({"name": k, "n": n, "cov": [1, 0]})
            continue
        if big:
            out.append({"name": k, "n": 2, "cov": [1, 0]})
            continue
        for c in REP[NAMES[k]]:
            out.append({"name": k, "n": 1, "pre": c, "cov": [0, 0]})
            out.append({"name": k, "n": 1, "post": c, "cov": [0, 0]})
        for a, b in (("k", "a"), ("a", " "), ("kSh", "i")):
            out.append({"name": k, "n": 1, "pre": a, "post": b, "cov": [0, 0]})
    return out


MADE = {}


def make(name, method, **kw):
    """A new instance (settings do not change, so ones without visits are reused)."""
    import graphtransliterator.transliterators as bundled

    key = (name, method, tuple(sorted(kw.items())))
    if key not in MADE:
        MADE[key] = getattr(bundled, name).new(method=method, **kw)
    gt = MADE[key]
    if kw.get("coverage"):
        gt.clear_visited()
    return gt


def body(W, P):
    import graphtransliterator.transliterators as bundled

    if "list" in P:
        W.check(sorted(bundled.iter_names()) == sorted(NAMES), "other bundled transliterators")
        W.cover("list")
        if "opts" in P:
            every(W, [{}, {"ignore_errors": True}, {"ignore_errors": False, "coverage": False}, {"coverage": True},
                      {"ignore_errors": True, "check_ambiguity": False}][P["opts"]])
        return
    name = NAMES[P["name"]]
    if "derive" in P:
        return derive(W, name, P["derive"])
    if "settings" in P:
        cls = getattr(bundled, name)
        args = {"coverage": W.flag("coverage"), "check_ambiguity": W.flag("ambiguity"),
                "ignore_errors": W.flag("ignore")}
        before = [cls.new(method="yaml"), cls.new(method="json")] if W.flag("made before") else []
        kind, y = W.run(cls.new, method="yaml", **args)
        kind2, j = W.run(cls.new, method="json", **args)
        for gt in before:
            W.check(gt.ignore_errors is False and gt is not y and gt is not j, "an earlier instance is changed")
        W.check(kind == "ok" and kind2 == "ok", "cannot be loaded")
        if kind != "ok" or kind2 != "ok":
            return
        plain = cls()
        W.cover("settings")
        a, b, c = config(y), config(j), config(plain)
        for part, ok in same_config(W, a, b):
            W.check(ok, "YAML and JSON differ: " + part)
        for part, ok in same_config(W, a, c, ("ignore",)):
            W.check(ok, "the default differs: " + part)
        W.check(y.ignore_errors == args["ignore_errors"] and j.ignore_errors == args["ignore_errors"],
                "ignoring errors is not honoured")
        for gt in (y, j):
            W.check(gt.name and gt.directory == plain.directory, "another directory")
        W.observe(y.productions)
        return
    opts = {"ignore_errors": W.flag("ignore")}
    if "opts" in P:
        opts["check_ambiguity"] = W.flag("ambiguity")
    y = make(name, "yaml", coverage=bool(P["cov"][0]), **opts)
    j = make(name, "json", coverage=bool(P["cov"][1]), **opts)
    t = P.get("pre", "") + W.string("s", P["n"]) + P.get("post", "")
    r1, r2 = W.run(y.transliterate, t), W.run(j.transliterate, t)
    W.observe(list(r1))
    W.cover(r1[0])
    W.check(W.eq(list(r1), list(r2)), "transliterated differently")
    if r1[0] == "exc":
        return
    W.check(y.last_input_tokens == j.last_input_tokens, "other tokens")
    W.check([r.production for r in y.last_matched_rules]
            == [r.production for r in j.last_matched_rules], "other rules")


def every(W, opts):
    """The iteration over all of them."""
    import graphtransliterator.transliterators as bundled

    kind, found = W.run(lambda: list(bundled.iter_transliterators(**opts)))
    W.check(kind == "ok", "cannot be iterated over")
    if kind != "ok":
        return
    W.check(sorted([type(t).__name__ for t in found]) == sorted(NAMES), "other instances")
    text = W.string("s", 1, "a\u00a4")
    for t in found:
        W.check(t.ignore_errors == opts.get("ignore_errors", False), "ignoring errors is not honoured")
        one = getattr(bundled, type(t).__name__)(**opts)
        for part, ok in same_config(W, config(t), config(one)):
            W.check(ok, "another configuration: " + part)
        W.check(hasattr(t.graph.node, "visited") == hasattr(one.graph.node, "visited"), "tracks coverage differently")
        r1, r2 = W.run(t.transliterate, text), W.run(one.transliterate, text)
        W.observe(list(r1))
        W.check(W.eq(list(r1), list(r2)), "transliterated differently")


def derive(W, name, how):
    """Dumps and prunings of a bundled transliterator."""
    from graphtransliterator import GraphTransliterator
    import graphtransliterator.transliterators as bundled

    ign = W.flag("ignore")
    gt = getattr(bundled, name).new(method=["json", "yaml"][how % 2], coverage=W.flag("coverage"), ignore_errors=ign)
    if W.flag("used"):
        W.run(gt.transliterate, "aa")
    W.cover("derive %d" % how)
    if how < 2:
        level = W.choose("level", 3)
        kind, back = W.run(GraphTransliterator.loads, gt.dumps(compression_level=level))
        W.check(kind == "ok", "its dump cannot be loaded")
        if kind == "ok":
            for part, ok in same_config(W, config(back), config(gt)):
                W.check(ok, "its dump differs: " + part)
            W.check(back.ignore_errors == ign, "its dump treats errors otherwise")
        return
    names = []
    for r in gt.rules:
        if r.production not in names:
            names.append(r.production)
    k = W.choose("production", 6)
    p = names[k * (len(names) - 1) // 5]
    one = gt.pruned_of([p] if k % 2 else p)
    left = [r for r in gt.rules if r.production != p]
    W.observe(len(left))
    W.check(list(one.rules) == left, "other rules are left")
    a, b = config(one), config(gt)
    for part, ok in same_config(W, a, b, ("rules", "node", "edge", "edges")):
        W.check(ok, "changed by pruning: " + part)
