from hlib import *

META = {
    "bounds": {
        "quick": "two feature-complete configurations (3 rules, with and without context, 1 on-match rule, metadata), in dictionary form, in easy-reading form and as the data read from YAML; at every one of their places (each section, entry, list element, key) every kind of other value: null, number, truth value, empty text, text of one symbolic character, empty list, list of such texts, of nulls, of numbers, of lists or of both, mapping of 0-2 entries with text or numbers as keys, a tuple, the entry removed, an entry added under a symbolic name; what is accepted then applied to every text of 1 character and dumped; the same changes in a readable dump that is loaded",
        "thorough": "two such changes at once",
    },
    "outside": "values that are converted by intention (a truth value given as text or 0/1), collections other than lists for lists, cost given with a rule; dumps with undefined names, with malformed computed parts, or compressed; YAML texts with syntax errors",
    "stubs": "yaml reader returns the data; re: backtracking matcher; logging is a no-op; marshmallow runs instrumented",
}
BUDGET = {"quick": 120, "thorough": 2400}
DICT = {
    "tokens": {"a": ["x"], "b": ["y"], " ": ["w"]},
    "rules": [
        {"production": "A", "tokens": ["a"]},
        {"production": "B", "tokens": ["b"], "prev_classes": ["x"], "prev_tokens": ["a"],
         "next_tokens": ["b"], "next_classes": ["y"]},
        {"production": "-", "tokens": [" "]},
    ],
    "onmatch_rules": [{"prev_classes": ["x"], "next_classes": ["y"], "production": ","}],
    "whitespace": {"default": " ", "token_class": "w", "consolidate": False},
    "metadata": {"k": ["v"]},
}
EASY = {
    "tokens": {"a": ["x"], "b": ["y"], " ": ["w"]},
    "rules": {"a": "A", "(<x> a) b (b <y>)": "B", " ": "-"},
    "onmatch_rules": [{"<x> + <y>": ","}],
    "whitespace": {"default": " ", "token_class": "w", "consolidate": False},
    "metadata": {"k": ["v"]},
}
# tokens and classes that these keys refer to
KEYS = {"a": ["a"], "(<x> a) b (b <y>)": ["a", "b", "<x>", "<y>"], " ": [" "]}
OMKEYS = {"<x> + <y>": ["<x>", "<y>"]}
KINDS = ["null", "number", "fraction", "true", "empty", "char", "[]", "[char]", "[null]", "[number]",
         "[[char]]", "[char, null]", "{}", "{char: char}", "{char: [char]}", "{number: char}", "{2}",
         "tuple", "removed", "added", "key"]


def places(d, p=()):
    """All places of the settings except within the metadata."""
    out = [p]
    if isinstance(d, dict) and p != ("metadata",):
        for k in d:
            out += places(d[k], p + (k,))
    elif isinstance(d, list):
        for k in range(len(d)):
            out += places(d[k], p + (k,))
    return out


def jobs(tier):
    out = []
    for route in ("dict", "easy", "yaml"):
        ps = places(DICT if route == "dict" else EASY)
        for k in range(0, len(ps), 2):
            out.append({"route": route, "at": [list(range(k, min(k + 2, len(ps))))]})
        if route == "dict":
            for k in range(0, len(ps), 3):
                out.append({"route": "load", "at": [list(range(k, min(k + 3, len(ps))))]})
        if tier == "thorough":
            for k in range(len(ps)):
                out.append({"route": route, "at": [[k], list(range(len(ps)))]})
    return out


def change(W, name, s, p):
    """The settings with another value at this place; None if not applicable."""
    kind = W.choose(name + " kind", KINDS)

    def char(k=""):
        return W.char(name + " char" + k, "abx w")

    if not p:
        x, last = {0: s}, 0
    else:
        x = s
        for k in p[:-1]:
            x = x[k]
        last = p[-1]
    if kind == "removed":
        if not p:
            return None
        if isinstance(x, list) or isinstance(x, dict):
            del x[last]
        return s
    if kind == "added":
        y = x[last]
        if isinstance(y, dict):
            y["zz"] = char()
        elif isinstance(y, list):
            y.append(char())
        else:
            return None
        return s
    if kind == "key":
        if not p or not isinstance(x, dict):
            return None
        v = x.pop(last)
        k = W.choose(name + " new key", ["", "zz", 1, None, "<x>", "b"])
        x[k] = v
        return s
    if kind == "null":
        v = None
    elif kind == "number":
        v = W.choose(name + " number", [0, 1, -1, 7])
    elif kind == "fraction":
        v = 2.5
    elif kind == "true":
        v = W.flag(name + " truth")
    elif kind == "empty":
        v = ""
    elif kind == "char":
        v = char()
    elif kind == "[]":
        v = []
    elif kind == "[char]":
        v = [char()]
    elif kind == "[null]":
        v = [None]
    elif kind == "[number]":
        v = [1]
    elif kind == "[[char]]":
        v = [[char()]]
    elif kind == "[char, null]":
        v = [char(), None]
    elif kind == "{}":
        v = {}
    elif kind == "{char: char}":
        v = {W.choose(name + " key", ["a", "x", "k"]): char()}
    elif kind == "{char: [char]}":
        v = {W.choose(name + " key", ["a", "x", "k"]): [char()]}
    elif kind == "{number: char}":
        v = {1: char()}
    elif kind == "{2}":
        v = {"<x> + <y>": char(), "<y> + <x>": char("2")}
    elif kind == "tuple":
        v = (char(),)
    if not p:
        return v if v is not None else "nothing"
    x[last] = v
    return s


GOOD, BAD, UNSURE = 0, 1, 2


def worst(xs):
    xs = list(xs)
    return BAD if BAD in xs else UNSURE if UNSURE in xs else GOOD


def text(v, defined=None):
    if not isinstance(v, str):
        return BAD
    if defined is not None and v not in defined:
        return BAD
    return GOOD


def texts(v, defined=None, null=False, some=False):
    if v is None:
        return GOOD if null else BAD
    if isinstance(v, (str, int, float)):
        return BAD
    if not isinstance(v, (list, tuple)):
        return worst([UNSURE] + [text(x, defined) for x in v])
    if some and not v:
        return BAD
    return worst(text(x, defined) for x in v)


def fields_of(v, required, optional):
    if not isinstance(v, dict):
        return BAD
    if [k for k in required if k not in v]:
        return BAD
    if [k for k in v if k not in required + optional]:
        return BAD
    return GOOD


COMPUTED = ["ignore_errors", "onmatch_rules_lookup", "tokens_by_class", "graph", "tokenizer_pattern",
            "graphtransliterator_version"]


def judge(s, easy, dump=False):
    """Whether these settings are as documented (good), certainly not (bad).
    Of a dump only the form is judged, not whether names are defined."""
    f = fields_of(s, ["tokens", "rules", "whitespace"],
                  ["onmatch_rules", "metadata"] + (COMPUTED if dump else []))
    if f == BAD:
        return BAD
    tokens = s["tokens"]
    if not isinstance(tokens, dict):
        return BAD
    if [t for t in tokens if not isinstance(t, str) or not t and not dump]:
        return BAD
    out = [texts(tokens[t]) for t in tokens]
    if BAD in out:
        return BAD
    toks = list(tokens)
    classes = [c for t in toks for c in tokens[t]]
    marked = ["<" + c + ">" for c in classes]
    if dump:
        toks = classes = None
    w = s["whitespace"]
    out.append(fields_of(w, ["default", "token_class", "consolidate"], []))
    if out[-1] == BAD:
        return BAD
    out += [text(w["default"], toks), text(w["token_class"], classes)]
    c = w["consolidate"]
    if not isinstance(c, bool):
        out.append(UNSURE if isinstance(c, str) or isinstance(c, int) and c in (0, 1) else BAD)
    m = s.get("metadata", {})
    if not isinstance(m, dict) or [k for k in m if not isinstance(k, str)]:
        out.append(UNSURE if m is None else BAD)
    rules = s["rules"]
    if easy:
        if not isinstance(rules, dict):
            return BAD
        for k in rules:
            if not isinstance(k, str):
                return BAD
            if k in KEYS:
                out += [GOOD if x in toks + marked else BAD for x in KEYS[k]]
            else:
                out.append(GOOD if k in toks and k in ("a", "b", "x", "w") else UNSURE)
            out.append(text(rules[k]))
    elif isinstance(rules, (str, int, float, dict)) or rules is None:
        return BAD
    else:
        for r in rules:
            out.append(fields_of(r, ["production", "tokens"],
                                 ["prev_classes", "prev_tokens", "next_tokens", "next_classes"] + ["cost"] * dump))
            if out[-1] == BAD:
                return BAD
            out.append(text(r["production"]))
            out.append(texts(r["tokens"], toks, some=True))
            for p in ("prev_tokens", "next_tokens"):
                out.append(texts(r.get(p), toks, null=True))
            for p in ("prev_classes", "next_classes"):
                out.append(texts(r.get(p), classes, null=True))
    om = s.get("onmatch_rules", [])
    if dump and s.get("onmatch_rules_lookup") and not om:
        return BAD
    if om is None:
        return UNSURE
    if isinstance(om, (str, int, float)):
        return BAD
    if not isinstance(om, (list, tuple)):
        return UNSURE if not om else BAD
    for r in om:
        if easy:
            if not isinstance(r, dict) or len(r) != 1:
                return BAD
            k = list(r)[0]
            if not isinstance(k, str):
                return BAD
            if k in OMKEYS:
                out += [GOOD if x in marked else BAD for x in OMKEYS[k]]
            else:
                out.append(BAD if "+" not in k else UNSURE)
            out.append(text(r[k]))
        else:
            out.append(fields_of(r, ["prev_classes", "next_classes", "production"], []))
            if out[-1] == BAD:
                return BAD
            out.append(text(r["production"]))
            for p in ("prev_classes", "next_classes"):
                out.append(texts(r[p], classes, some=True))
    return worst(out)


def load(W, s):
    from graphtransliterator import GraphTransliterator

    if not isinstance(s, dict):
        return
    verdict = judge(s, False, True)
    kind, gt = W.run(GraphTransliterator.load, s)
    W.observe([kind, gt if kind == "exc" else None, verdict])
    W.check(kind == "ok" or gt == "ValidationError", "refused with another error")
    W.check(kind == "ok" or verdict != GOOD, "a dump as documented is refused")
    W.check(kind == "exc" or verdict != BAD, "a malformed dump is accepted")
    W.cover("load %s %d" % (kind, verdict))


def body(W, P):
    from graphtransliterator import GraphTransliterator

    route = P["route"]
    if route == "load":
        gt = GraphTransliterator.from_dict(cp(DICT))
        ps = places(dict(DICT, rules=[DICT["rules"][k] for k in (1, 0, 2)]))
        s = cp(gt.dump(compression_level=0))
    else:
        s = cp(DICT if route == "dict" else EASY)
        ps = places(s)
    for j, at in enumerate(P["at"]):
        p = ps[W.choose("place%d" % j, at)]
        try:
            s = change(W, "change%d" % j, s, p)
        except (KeyError, IndexError, TypeError, AttributeError):
            return  # the place is gone by the first change
        if s is None:
            return
        if isinstance(s, str) and s == "nothing":
            s = None
    if route == "load":
        return load(W, s)
    verdict = judge(s, route != "dict")
    opts = {} if W.flag("check") else {"check_ambiguity": False}
    if route == "dict":
        kind, gt = W.run(GraphTransliterator.from_dict, s, **opts)
    elif route == "easy":
        kind, gt = W.run(GraphTransliterator.from_easyreading_dict, s, **opts)
    else:
        W.on_yaml(lambda text: s)
        kind, gt = W.run(GraphTransliterator.from_yaml, "settings: here\n", **opts)
        W.on_yaml(None)
    W.observe([kind, gt if kind == "exc" else None, verdict])
    if kind == "exc":
        ambiguous = gt == "AmbiguousTransliterationRulesException"
        W.check(gt == "ValidationError" or ambiguous and opts == {}, "refused with another error")
        W.check(verdict != GOOD or ambiguous, "settings as documented are refused")
        W.cover("refused %d" % verdict)
        return
    W.cover("accepted %d" % verdict)
    W.check(verdict != BAD, "malformed settings are accepted")
    t = W.string("text", 1, "ab ?")
    kind, r = W.run(gt.transliterate, t)
    W.check(kind == "ok" or r in ("UnrecognizableInputTokenException", "NoMatchingTransliterationRuleException"),
            "accepted settings fail in use")
    for lvl in (0, 1, 2):
        kind, r = W.run(gt.dumps, compression_level=lvl)
        W.check(kind == "ok", "accepted settings cannot be dumped")
