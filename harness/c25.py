from hlib import *
from c11 import conf_jobs
from c16 import notation

META = {
    "bounds": {
        "quick": "the settings of C11 (1 rule needing <=3 tokens or 2 needing <=2, 0-2 on-match rules, variants of token classes, absent/empty/null parts, metadata with nested lists and mappings, consolidation; names and productions symbolic), a configuration with names of 1-2 arbitrary characters and a feature-complete configuration; routes: settings in dictionary form, easy-reading form, dumps of every compression level as data, pruning with a list; plain and coverage transliterators, errors ignored or not (the latter for the feature-complete one); data with absent, null, empty, wrong or additional entries, accepted or not; after using the result on a symbolic input of 1 or 2 characters, adding to its graph, and changing every list, mapping and value inside a dump",
        "thorough": "2 rules needing <=3, 3 rules needing <=2",
    },
    "outside": "changing the lists and sets a transliterator returns from its properties; changes made to settings between reading them and using the transliterator, except those of dumps; graphs and tokens given straight to the constructor",
    "stubs": "re: backtracking matcher; logging is a no-op; marshmallow and copy run instrumented",
}
BUDGET = {"quick": 90, "thorough": 2400}
ROUTES = ["dict", "easy", "load0", "load1", "load2", "prune"]


def jobs(tier):
    out = []
    for r in ROUTES:
        for cov in (0, 1):
            for lvl in range(3) if "load" not in r else [0]:
                out.append({"fixed": 1, "route": r, "cov": cov, "level": lvl})
    for r in ROUTES[:5]:
        out.append({"odd": 1, "route": r, "cov": 0, "level": 0})
    for k, c in enumerate(conf_jobs(tier)):
        for j, r in enumerate(ROUTES):
            if "names" in c and r == "easy":
                continue
            if tier == "thorough" or (k + j) % 5 == 0:
                out.append(dict(c, route=r, cov=(k + j) // 5 % 2, level=(k + j) // 2 % 3,
                                nested=k % 2))
    return out


def scramble(x):
    """Changes everything inside plain data."""
    if isinstance(x, dict):
        for k in list(x):
            scramble(x[k])
            if not isinstance(x[k], (dict, list, set)):
                x[k] = "scrambled"
        x["scrambled"] = ["scrambled"]
    elif isinstance(x, list):
        for k in range(len(x)):
            scramble(x[k])
            if not isinstance(x[k], (dict, list, set)):
                x[k] = "scrambled"
        x.append("scrambled")
    elif isinstance(x, set):
        x.add("scrambled")
    elif isinstance(x, tuple):
        for y in x:
            scramble(y)


def copyof(x):
    """Copy of plain data, tuples kept."""
    if isinstance(x, tuple):
        return tuple([copyof(y) for y in x])
    if isinstance(x, dict):
        return {k: copyof(v) for k, v in x.items()}
    if isinstance(x, list):
        return [copyof(y) for y in x]
    return x


def same(W, a, b):
    """Formula: plain data agree, types and order of keys included."""
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = list(a), list(b)
        if len(ka) != len(kb):
            return False
        return W.And(*([W.eq(p, q) for p, q in zip(ka, kb)]
                       + [same(W, a[p], b[q]) for p, q in zip(ka, kb)]))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b) or isinstance(a, list) != isinstance(b, list):
            return False
        return W.And(*[same(W, p, q) for p, q in zip(a, b)])
    return W.eq(a, b)


def easy(s):
    out = {"tokens": s["tokens"], "whitespace": s["whitespace"], "rules": {}}
    for r in s["rules"]:
        out["rules"][notation({p: r.get(p) or [] for p in PARTS})] = r["production"]
    if s.get("onmatch_rules"):
        out["onmatch_rules"] = [
            {" ".join(["<" + c + ">" for c in o["prev_classes"]]) + " + "
             + " ".join(["<" + c + ">" for c in o["next_classes"]]): o["production"]}
            for o in s["onmatch_rules"]]
    if "metadata" in s:
        out["metadata"] = s["metadata"]
    return out


def odd(W, P):
    """Unusual data, accepted or not: it is left alone."""
    from graphtransliterator import GraphTransliterator

    route = P["route"]
    s = settings(rules=[{"production": "A", "tokens": ["a"]},
                        {"production": "C", "tokens": ["a", "b"], "prev_classes": ["y"]}])
    s["onmatch_rules"] = s["onmatch_rules"][:1]
    if route == "dict":
        ps = [p for p in PARTS if p != "tokens"]
        e = W.choose("part", 9)
        if e:
            s["rules"][e % 2][ps[(e - 1) // 2]] = [None, []][(e - 1) // 4 % 2]
            s["rules"][1 - e % 2][ps[(e - 1) // 2]] = [[], None][(e - 1) // 4 % 2]
        make = GraphTransliterator.from_dict
    elif route == "easy":
        s = easy(s)
        make = GraphTransliterator.from_easyreading_dict
        key = W.choose("rule", ["a", "(b) a", "<x> a (b <y>)", "  a", "a  ", "b  a", "a (", ""])
        s["rules"][key] = W.string("out", 1)
    else:
        s = GraphTransliterator.from_dict(s, check_ambiguity=False).dump(int(route[-1]))
        make = GraphTransliterator.load
    part = W.choose("altered", ["nothing"] + sorted(s))
    if part != "nothing":
        how = W.choose("how", ["absent", "none", "empty", "wrong"])
        v = s.pop(part)
        if how == "none":
            s[part] = None
        elif how == "empty":
            s[part] = type(v)()
        elif how == "wrong":
            s[part] = [W.string("wrong", 1), {"x": [1]}]
    elif W.flag("more"):
        s["more"] = {"x": [1]}
    before = copyof(s)
    kind, gt = W.run(make, s)
    W.observe([kind])
    W.cover(kind)
    W.check(same(W, s, before), "the data passed in was changed")
    if kind == "ok":
        W.run(gt.transliterate, "ab")
        W.check(same(W, s, before), "using the transliterator changed the data passed in")


def body(W, P):
    from graphtransliterator import CoverageTransliterator, GraphTransliterator

    if "odd" in P:
        return odd(W, P)
    cls = CoverageTransliterator if P["cov"] else GraphTransliterator
    s = settings() if "fixed" in P else symsettings(W, P)
    if "fixed" in P or P["nested"]:
        s["metadata"] = {"k": [1, {"x": [2, "y"]}], "m": {"n": {"o": []}}, "z": "v"}
    ign = W.flag("ignore") if "fixed" in P else False
    kw = {"check_ambiguity": False, "ignore_errors": ign}
    route = P["route"]
    if route == "easy":
        if "fixed" in P:
            s["rules"] = s["rules"][:-1]  # (a lone blank)
        for r in s["rules"]:
            for p in ("prev_tokens", "tokens", "next_tokens"):
                for x in r.get(p) or []:
                    W.assume(W.Not(W.eq(x, " ")))
        if not s["rules"]:
            s["rules"] = [{"production": "A", "tokens": ["a"]}]
        given = easy(s)
        make = GraphTransliterator.from_easyreading_dict
    elif route == "dict":
        given = s
        make = GraphTransliterator.from_dict
    else:
        origin = GraphTransliterator.from_dict(s, **kw)
        if P["cov"]:
            origin = covered(origin, kw)
        conf = config(origin)
        if route == "prune":
            given = [origin.rules[0].production] if origin.rules else ["nothing"]
            make = lambda g, **k: origin.pruned_of(g)
        else:
            given = origin.dump(compression_level=int(route[-1]))
            make = GraphTransliterator.load
    before = copyof(given)
    kind, gt = W.run(make, given, **kw)
    W.check(kind == "ok", "cannot be constructed")
    if kind != "ok":
        return
    W.cover(route)
    W.check(same(W, given, before), "the data passed in was changed")
    if P["cov"] and route != "prune":
        gt = covered(gt, kw)
    first = config(gt)
    kind2, gt2 = W.run(make, given, **kw)
    W.check(kind2 == "ok", "cannot be constructed again")
    if kind2 != "ok":
        return
    for k, c in same_config(W, config(gt2), first):
        W.check(c, "constructed again, it differs: " + k)
    t = W.string("s", 2, "ab ?") if "fixed" in P else W.string("s", 1, "ab")
    r1 = W.run(gt.transliterate, t)
    W.observe(list(r1))
    W.check(same(W, given, before), "using the transliterator changed the data passed in")
    W.run(gt.dump)
    W.run(gt.dump, compression_level=2)
    W.run(gt.pruned_of, "A")
    W.check(same(W, given, before), "dumping or pruning changed the data passed in")
    # the results stand for themselves
    gt.graph.add_node({"type": "token", "token": "a"})
    gt.graph.add_edge(0, len(gt.graph.node) - 1, {"token": "a", "cost": 1})
    W.check(same(W, given, before), "changing the graph changed the data passed in")
    for k, c in same_config(W, config(gt2), first):
        W.check(c, "changing one transliterator changed the other: " + k)
    if route[:4] == "load":
        for k, c in same_config(W, config(origin), conf):
            W.check(c, "loading a dump changed the transliterator it came from: " + k)
        scramble(given)
        for k, c in same_config(W, config(origin), conf):
            W.check(c, "changing a dump changed the transliterator it came from: " + k)
        for k, c in same_config(W, config(gt2), first):
            W.check(c, "changing a dump changed a transliterator loaded from it: " + k)
        W.check(W.eq(list(W.run(gt2.transliterate, t)), list(r1)), "transliterates differently")
    else:
        d = gt2.dump(compression_level=P["level"])
        scramble(d)
        for k, c in same_config(W, config(gt2), first):
            W.check(c, "changing a dump changed the transliterator it came from: " + k)
        if route == "prune":
            for k, c in same_config(W, config(origin), conf):
                W.check(c, "pruning changed the original: " + k)


def covered(gt, kw):
    """The same with coverage tracking, as bundled transliterators are made."""
    from graphtransliterator import CoverageTransliterator

    return CoverageTransliterator(
        gt.tokens, gt.rules, gt.whitespace, onmatch_rules=gt.onmatch_rules,
        metadata=gt.metadata, onmatch_rules_lookup=gt.onmatch_rules_lookup,
        tokens_by_class=gt.tokens_by_class, graph=gt.graph,
        tokenizer_pattern=gt.tokenizer_pattern, **kw)
