from hlib import *
from c25 import easy
from c33 import tables

META = {
    "bounds": {
        "quick": "two transliterators in one process (which both exist before the first call): a feature-complete configuration and a variant that does not differ or differs from it in one of 14 respects (production, classes of tokens, a rule's context, order of equal rules, on-match rules, order of on-match rules, whitespace default and consolidation, tokens, metadata, errors ignored, class of the object, names that are those of the other joined), either built first; one of the calls transliterate, tokenize, match_at, dump and dumps, pruned_of, changing ignore_errors on either (symbolic choice), a transliteration by either, then one by each, with symbolic inputs of 1-2 characters, each result compared with the documented one for that object's own settings; a transliterator (plain or coverage) made by the constructor from the graph, or all tables, of another (plain or coverage, used or not), then two calls of transliterate or clear_visited on either, compared in results, configuration, dump and coverage verdicts with a pair made separately; three made one after another from the same source or (the second) a changed one by each of 8 routes, with and without options, the setting of one changed; two transliterators with 1-2 tokens each, of up to 3 symbolic characters over 2-3 (one of them a regular-expression or separating character) and every input of 3 such characters",
        "thorough": "a second transliteration in between; inputs of 2 characters throughout",
    },
    "outside": "more objects; a plain transliterator given the visit-logging graph of a coverage one",
    "stubs": "re: backtracking matcher; logging is a no-op; marshmallow runs as is, instrumented",
}
BUDGET = {"quick": 150, "thorough": 2400}
BASE = {
    "tokens": {"a": ["x"], "b": ["y"], " ": ["w"], "_": ["w"], "c": ["x", "y"]},
    "rules": [
        {"production": "A", "tokens": ["a"]},
        {"production": "B", "tokens": ["b"]},
        {"production": "(b)a", "tokens": ["a"], "prev_tokens": ["b"]},
        {"production": "ab", "tokens": ["a", "b"]},
        {"production": "a$", "tokens": ["a"], "next_classes": ["w"]},
        {"production": "-", "tokens": [" "]},
    ],
    "onmatch_rules": [
        {"prev_classes": ["x"], "next_classes": ["x"], "production": ","},
        {"prev_classes": ["w"], "next_classes": ["y"], "production": ";"},
        {"prev_classes": ["w"], "next_classes": ["y"], "production": "!"},
    ],
    "whitespace": {"default": " ", "token_class": "w", "consolidate": False},
    "metadata": {"k": ["v"]},
}
VARIANTS = ["same", "production", "classes", "context", "order", "onmatch", "omorder", "default",
            "consolidate", "token", "metadata", "ignore", "coverage", "norules", "joined"]


def variant(v):
    s = cp(BASE)
    if v == "production":
        s["rules"][0]["production"] = "Z"
        s["onmatch_rules"][0]["production"] = "z"
    elif v == "classes":
        s["tokens"]["b"] = ["x", "y"]
        s["tokens"]["a"] = ["w", "x"]
    elif v == "context":
        s["rules"][2]["prev_tokens"] = ["a"]
        s["rules"][4]["next_classes"] = ["y"]
    elif v == "order":
        s["rules"] = s["rules"][::-1]
    elif v == "onmatch":
        s["onmatch_rules"] = []
    elif v == "omorder":
        s["onmatch_rules"] = s["onmatch_rules"][::-1]
    elif v == "default":
        s["whitespace"]["default"] = "_"
    elif v == "consolidate":
        s["whitespace"]["consolidate"] = True
    elif v == "token":
        s["tokens"]["ab"] = s["tokens"].pop("_")
        s["rules"][3]["tokens"] = ["ab"]
    elif v == "metadata":
        s["metadata"] = {"k": ["w"]}
    elif v == "joined":
        s["tokens"]["c"] = ["xy"]
        s["onmatch_rules"][0]["prev_classes"] = ["xy"]
    elif v == "norules":
        s["rules"] = s["rules"][:1]
    return s


OPS = ["translit", "tokenize", "match", "dump", "prune", "flip"]


def jobs(tier):
    big = tier == "thorough"
    out = []
    for k, v in enumerate(VARIANTS):
        for first in (0, 1):
            for op in OPS:
                if first and op != "translit" and not big or op == "match" and k % 2 and not big:
                    continue
                out.append({"variant": v, "first": first, "ops": [op, "translit", "translit"] if big else [op, "translit"],
                            "n": 2 if big or op == "translit" and first and k % 3 == 2 else 1})
    for route in ("dict", "easy", "yaml", "file", "load", "compressed", "loads", "prune"):
        for then in ("same", "production") + (("classes", "norules", "metadata") if big else ()):
            out.append({"route": route, "then": then, "n": 2 if big else 1})
    for parts in ("graph", "all"):
        for kinds in ("pp", "pc", "cc"):
            for n in (1, 2):
                if n == 1 or big or kinds == "cc":
                    out.append({"parts": parts, "kinds": kinds, "n": n, "calls": 3 if big else 2})
    for lens in ([[1, 1], [3]], [[1, 2], [2, 1]], [[3], [3]]) + (([[2, 2], [1, 3]], [[1, 1, 1], [3, 1]]) if big else ()):
        for abc in ("a|", "a ", "a,") if big else ("a|", "a "):
            if abc == "a " and min(map(len, lens)) < max(map(len, lens)):
                abc = "ab "
            out.append({"tokens": lens, "abc": abc})
            if lens != lens[::-1]:
                out.append({"tokens": lens[::-1], "abc": abc})
    return out


def again(W, P):
    """Transliterators made one after another from the same source, or from one
    that has changed in between."""
    from graphtransliterator import GraphTransliterator

    route = P["route"]
    confs = []
    for v in ("same", P["then"], "same"):
        s = variant(v)
        s["rules"] = [r for r in s["rules"] if r["tokens"] != [" "]]
        confs.append(s)
    dicts, dumps = {}, {}

    def data(k):
        """The source; the same object for the same settings."""
        v = P["then"] if k == 1 else "same"
        if v not in dicts:
            s = cp(confs[k])
            if route in ("easy", "yaml", "file"):
                s = easy(s)
            elif route in ("load", "compressed"):
                s = direct(s).dump(compression_level=0 if route == "load" else 1)
            elif route == "loads":
                s = direct(s).dumps(compression_level=W.choose("level " + v, 3))
            elif route == "prune":
                s = direct(dict(s, rules=s["rules"] + [{"production": "gone", "tokens": ["c"]}]))
            dicts[v] = s
        return dicts[v]

    def make(k, **kw):
        d = data(k)
        if route == "dict":
            return GraphTransliterator.from_dict(d, **kw)
        if route == "easy":
            return GraphTransliterator.from_easyreading_dict(d, **kw)
        if route in ("load", "compressed"):
            return GraphTransliterator.load(d, **kw)
        if route == "loads":
            return GraphTransliterator.loads(d, **kw)
        if route == "prune":
            return d.pruned_of("gone")
        text = "settings: %s\n" % (P["then"] if k == 1 else "same")
        W.on_yaml(lambda t: cp(dicts[(t if isinstance(t, str) else t.read())[10:-1]]))
        if route == "yaml":
            return GraphTransliterator.from_yaml(text, **kw)
        return GraphTransliterator.from_yaml_file(W.virtual_file("again.yaml", text), **kw)

    gts, ign = [], [False] * 3
    for k in range(3):
        kw = {}
        if route != "prune" and W.flag("option%d" % k):
            kw = {"ignore_errors": True}
            ign[k] = True
        kind, gt = W.run(make, k, **dict(kw, **({} if route == "prune" else {"check_ambiguity": False})))
        W.check(kind == "ok", "cannot be constructed: %s" % (gt if kind == "exc" else ""))
        if kind != "ok":
            return
        gts.append(gt)
        if k == 1:
            j = W.choose("which", 2)
            gts[j].ignore_errors = not gts[j].ignore_errors
            ign[j] = not ign[j]
            W.run(gts[j].transliterate, "ab?")
    W.on_yaml(None)
    t = W.string("s", P["n"], "ab?")
    for k in (0, 1, 2):
        act(W, gts[k], confs[k], "translit", t, ign, k, [None] * 3)
        W.check(gts[k].ignore_errors == ign[k], "errors ignored by another's setting")
        ref = direct(confs[k], ignore_errors=ign[k])
        for part, ok in same_config(W, config(gts[k]), config(ref), ("metadata",)):
            W.check(ok, "made after another it is different: " + part)
        W.check(gts[k].metadata == confs[k]["metadata"], "another's metadata")
    W.cover("again " + route)


def renamed(W, P):
    """Two transliterators of any similar tokens, whose names may be those of the
    other joined in any way."""
    from graphtransliterator import GraphTransliterator

    confs, gts = [], []
    for k, lens in enumerate(P["tokens"]):
        toks = []
        for j, n in enumerate(lens):
            t = W.string("t%d.%d" % (k, j), n, P["abc"])
            for u in toks + [" "]:
                W.assume(W.Not(W.eq(t, u)))
            toks.append(t)
        confs.append({
            "tokens": dict([(t, ["x%d" % j]) for j, t in enumerate(toks)] + [(" ", ["w"])]),
            "rules": [{"production": "%d.%d" % (k, j), "tokens": [t]} for j, t in enumerate(toks)] + [
                {"production": "_", "tokens": [" "]}],
            "whitespace": {"default": " ", "token_class": "w", "consolidate": False}})
        gts.append(direct(confs[k], ignore_errors=True))
    text = W.string("s", 3, P["abc"])
    for k in (0, 1, 0):
        kind, got = W.run(gts[k].transliterate, text)
        want, toks, used = spec(confs[k], text, True)
        W.observe([kind, got])
        W.check(W.eq([kind, got], list(want)), "transliterates by another's tokens")
    W.cover("tokens")


def given(W, P):
    """A transliterator made by the constructor from parts of another, and both
    as they are when made from parts of their own."""
    from graphtransliterator import CoverageTransliterator, GraphTransliterator

    cls = [CoverageTransliterator if k == "c" else GraphTransliterator for k in P["kinds"]]
    first = direct(BASE, cls=cls[0])
    alone = [direct(BASE, cls=c) for c in cls]
    parts = {"graph": first.graph}
    if P["parts"] == "all":
        parts.update(
            onmatch_rules_lookup=first.onmatch_rules_lookup,
            tokens_by_class=first.tokens_by_class,
            tokenizer_pattern=first.tokenizer_pattern,
        )
    early = W.flag("used before")
    if early:
        t = W.string("e", 1, "ab ")
        for gt in (first, alone[0]):
            W.run(gt.transliterate, t)
    kind, second = W.run(
        cls[1], first.tokens, first.rules, first.whitespace, onmatch_rules=first.onmatch_rules,
        metadata=first.metadata, check_ambiguity=False, **parts)
    W.check(kind == "ok", "cannot be made from another's parts")
    if kind != "ok":
        return
    gts = [first, second]
    for j in range(P["calls"]):
        k = W.choose("who%d" % j, 2)
        if cls[k] is CoverageTransliterator and W.flag("clear%d" % j):
            gts[k].clear_visited()
            alone[k].clear_visited()
            continue
        t = W.string("t%d" % j, P["n"], "ab ?" if P["n"] == 1 else "ab")
        got, want = W.run(gts[k].transliterate, t), W.run(alone[k].transliterate, t)
        W.observe(list(got))
        W.check(W.eq(list(got), list(want)), "transliterates differently with another's parts")
    for k in (0, 1):
        if cls[k] is CoverageTransliterator:
            for r in (False, True):
                got, want = W.run(gts[k].check_coverage, r), W.run(alone[k].check_coverage, r)
                W.check(got == want, "coverage changed by a transliterator given the same parts")
        for part, ok in same_config(W, config(gts[k]), config(alone[k])):
            W.check(ok, "differs when parts are shared: " + part)
    W.check(first.dumps() == alone[0].dumps(), "dumped differently after its parts are given to another")
    W.check(type(first.graph.edge[0]) is type(alone[0].graph.edge[0]), "its graph is changed")
    W.cover("parts")


def body(W, P):
    from graphtransliterator import CoverageTransliterator, GraphTransliterator

    if "parts" in P:
        return given(W, P)
    if "tokens" in P:
        return renamed(W, P)
    if "then" in P:
        return again(W, P)
    v = P["variant"]
    confs = [cp(BASE), variant(v)]
    ign = [False, v == "ignore"]
    gts = [None, None]
    for k in (P["first"], 1 - P["first"]):
        kind, gt = W.run(GraphTransliterator.from_dict, cp(confs[k]), check_ambiguity=False, ignore_errors=ign[k])
        W.check(kind == "ok", "cannot be constructed")
        if kind != "ok":
            return
        if k and v == "coverage":
            gt = direct(confs[k], cls=CoverageTransliterator)
        gts[k] = gt
    before = [config(gt) for gt in gts]
    last = [None, None]
    for j, op in enumerate(P["ops"] + ["both"]):
        if op == "both":
            todo = [(0, "translit"), (1, "translit")]
        else:
            todo = [(W.choose("which%d" % j, 2), op)]
        t = W.string("s%d" % j, P["n"] if op == "both" else 1, "ab?" if op == "both" else "ab _")
        for k, what in todo:
            gt, s = gts[k], confs[k]
            act(W, gt, s, what, t, ign, k, last)
    for k in (0, 1):
        W.check(gts[k].ignore_errors == ign[k], "errors ignored by another's setting")
        for part, ok in same_config(W, config(gts[k]), before[k], ("ignore",)):
            W.check(ok, "changed by using another transliterator: " + part)
        if last[k] is not None:
            toks, used = last[k]
            W.check(gts[k].last_input_tokens == toks, "the last input tokens are another's")
            W.check([r.production for r in gts[k].last_matched_rules] == used, "the last rules are another's")
        tables(W, gts[k], confs[k], spec_rules(confs[k]))
    W.cover(v)


def act(W, gt, s, what, t, ign, k, last):
    if what == "translit":
        want, toks, used = spec(s, t, ign[k])
        got = W.run(gt.transliterate, t)
        W.observe(list(got))
        W.check(W.eq(list(got), list(want)), "transliterates by another's settings")
        if toks is not None:
            rules = spec_rules(s)
            last[k] = (toks, [rules[i]["production"] for i in used])
    elif what == "tokenize":
        want = spec_tokens(s["tokens"], s["whitespace"], t, ign[k])
        kind, got = W.run(gt.tokenize, t)
        W.check(kind == "exc" if want is None else kind == "ok" and got == want, "tokenizes by another's settings")
    elif what == "match":
        toks = [" ", "a", "b", " "]
        i = W.choose("at", [1, 2])
        want = [n for n, r in enumerate(spec_rules(s)) if spec_fits(r, toks, i, s["tokens"])]
        kind, got = W.run(gt.match_at, i, toks, match_all=True)
        W.check(kind == "ok" and sorted(got) == want, "matches by another's settings")
    elif what == "dump":
        lvl = W.choose("level", 3)
        W.run(gt.dump, compression_level=lvl)
        W.run(gt.dumps, compression_level=lvl)
    elif what == "prune":
        kind, p = W.run(gt.pruned_of, "A")
        if kind == "ok":
            p.ignore_errors = True
            W.run(p.transliterate, t)
    elif what == "flip":
        gt.ignore_errors = not gt.ignore_errors
        ign[k] = not ign[k]
