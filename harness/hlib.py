"""Shared pieces of the harnesses (run symbolically, natively and on PyPy)."""
import itertools
import math
from collections import UserDict

PARTS = ("prev_classes", "prev_tokens", "tokens", "next_tokens", "next_classes")


def shapes(max_total, max_prev=9, max_tok=9, max_next=9, ctx=True):
    """Rule shapes: numbers of previous classes, previous tokens, tokens, next
    tokens, next classes; at least one token."""
    out = []
    for t in range(1, max_total + 1):
        for pc, pt, nt, nc in itertools.product(range(max_total), repeat=4):
            s = (pc, pt, t, nt, nc)
            if sum(s) > max_total or pc + pt > max_prev or nt + nc > max_next or t > max_tok:
                continue
            if not ctx and (pc or pt or nt or nc):
                continue
            out.append(s)
    out.sort(key=lambda s: (-sum(s), s))
    return out


def cost(n):
    """The documented cost of a rule that needs n tokens."""
    return math.log2(1 + 1 / (1 + n))


def symrule(W, name, shape, tokens, classes):
    """A rule of the given shape with symbolic tokens and classes, as a dict."""
    r = {}
    for part, n in zip(PARTS, shape):
        alphabet = classes if part.endswith("classes") else tokens
        vals = [W.char("%s.%s%d" % (name, part, k), alphabet) for k in range(n)]
        r[part] = vals
    return r


def symrules(W, shs, tokens, classes):
    """Rules of these shapes, cheapest (most tokens) first, as from_dict orders them."""
    order = sorted(range(len(shs)), key=lambda k: -sum(shs[k]))
    return [symrule(W, "r%d" % k, shs[k], tokens, classes) for k in order]


def ruleobj(r, production):
    from graphtransliterator import TransliterationRule

    return TransliterationRule(
        production=production,
        prev_classes=r["prev_classes"] or None,
        prev_tokens=r["prev_tokens"] or None,
        tokens=r["tokens"],
        next_tokens=r["next_tokens"] or None,
        next_classes=r["next_classes"] or None,
        cost=cost(need(r)),
    )


def ruledict(r, production):
    """Settings form of a rule, as from_dict takes it."""
    d = {"production": production}
    for p in PARTS:
        if r[p]:
            d[p] = list(r[p])
    return d


def need(r):
    return sum(len(r[p]) for p in PARTS)


def need_of(r):
    """The same for a rule in settings."""
    return sum(len(r.get(p) or []) for p in PARTS)


def fits(W, r, toks, i, class_of):
    """Formula: rule r fits the token list at position i."""
    pc, pt, t, nt, nc = [r[p] for p in PARTS]
    start = i - len(pt) - len(pc)
    end = i + len(t) + len(nt) + len(nc)
    if start < 0 or end > len(toks):
        return False
    out = []
    k = start
    for c in pc:
        out.append(W.isin(c, class_of[toks[k]]))
        k += 1
    for x in list(pt) + list(t) + list(nt):
        out.append(W.eq(toks[k], x))
        k += 1
    for c in nc:
        out.append(W.isin(c, class_of[toks[k]]))
        k += 1
    return W.And(*out)


def build(W, rules, class_of, by_class, default=" ", wb="w", consolidate=False, **kw):
    """A transliterator straight from the constructor, with symbolic classes."""
    from graphtransliterator import GraphTransliterator, WhitespaceRules

    kw.setdefault("check_ambiguity", False)
    return GraphTransliterator(
        class_of,
        rules,
        WhitespaceRules(default=default, token_class=wb, consolidate=consolidate),
        tokens_by_class=by_class,
        **kw
    )


def cp(x):
    """Deep copy of plain data (named tuples, being immutable, copied as lists)."""
    if isinstance(x, (dict, UserDict)):
        return {k: cp(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return set(x)
    if isinstance(x, (list, tuple)):
        return [cp(y) for y in x]
    return x


def config(gt):
    """Everything that makes up a transliterator's settings, copied; an absent
    list is the same as an empty one, an absent node attribute as a false one."""
    return {
        "tokens": {k: set(v) for k, v in gt.tokens.items()},
        "rules": [[[] if x is None else cp(x) for x in r] for r in gt.rules],
        "onmatch": [cp(tuple(r)) for r in gt.onmatch_rules or []],
        "whitespace": cp(tuple(gt.whitespace)),
        "metadata": cp(gt.metadata),
        "lookup": cp(gt.onmatch_rules_lookup or {}),
        "by_class": {k: set(v) for k, v in gt.tokens_by_class.items()},
        "pattern": gt.tokenizer_pattern,
        "ignore": gt.ignore_errors,
        "node": [{k: cp(v) for k, v in n.items() if v or k in ("rule_key", "token")}
                 for n in gt.graph.node],
        "edge": cp(gt.graph.edge),
        "edges": sorted([list(e) for e in gt.graph.edge_list]),
    }


def same_config(W, a, b, skip=()):
    """Formulas: two configurations agree, per part."""
    return [(k, W.eq(a[k], b[k])) for k in a if k not in skip]


# a configuration exercising every feature, in the form from_dict takes
SETTINGS = {
    "tokens": {"a": ["x"], "b": ["y"], "ab": ["x", "y"], " ": ["w"], "_": ["w"]},
    "rules": [
        {"production": "A", "tokens": ["a"]},
        {"production": "B", "tokens": ["b"]},
        {"production": "(ba)", "tokens": ["a"], "prev_tokens": ["b"]},
        {"production": "aa", "tokens": ["a", "a"]},
        {"production": "a$", "tokens": ["a"], "next_classes": ["w"]},
        {"production": "baa", "tokens": ["a", "a"], "prev_tokens": ["b"]},
        {"production": "ba$", "tokens": ["a"], "prev_tokens": ["b"], "next_classes": ["w"]},
        {"production": "C", "tokens": ["ab"], "prev_classes": ["y"], "next_tokens": ["a"]},
        {"production": "C", "tokens": ["ab"]},
        {"production": " ", "tokens": [" "]},
    ],
    "onmatch_rules": [
        {"prev_classes": ["w", "x"], "next_classes": ["x"], "production": "!"},
        {"prev_classes": ["x"], "next_classes": ["y"], "production": ","},
        {"prev_classes": ["y"], "next_classes": ["x", "w"], "production": ";"},
    ],
    "whitespace": {"default": " ", "token_class": "w", "consolidate": False},
    "metadata": {"author": "N. N.", "list": [1, 2.5, None, "q"]},
}


def settings(**over):
    s = cp(SETTINGS)
    s.update(over)
    return s


def _many():
    """More than ten of everything: tokens, classes, rules of equal cost for the
    same token, graph nodes, on-match rules for the same pair; long rules.  No
    rules are in conflict, but many on-match rules apply at once."""
    letters = "abcdefghijklm"
    tokens = {t: ["c%d" % k, "c%d" % (k + 1), "d%d" % k, "x"] + ["y"] * (k % 2) for k, t in enumerate(letters)}
    tokens.update({"ab": ["x", "z"], "abcdef": ["z"], " ": ["w"], "_": ["w"]})
    rules = [{"production": t.upper(), "tokens": [t]} for t in letters if t != "l"]
    rules += [{"production": "a%d" % k, "tokens": ["a"], "prev_classes": ["d%d" % k]} for k in range(12)]
    rules += [{"production": "b%d" % k, "tokens": ["b"], "next_classes": ["d%d" % k]} for k in range(12)]
    rules += [{"production": "+".join(r["tokens"]) + "!", **r} for r in (
        {"tokens": ["ab"]}, {"tokens": ["abcdef"]}, {"tokens": ["d", "e", "a"]}, {"tokens": ["_"]},
        {"tokens": [" "], "prev_classes": ["x"], "next_tokens": [" "]},
        {"tokens": ["k", "l", "m"], "prev_classes": ["x", "y", "x"], "prev_tokens": ["i", "j"],
         "next_tokens": ["a", "c"], "next_classes": ["x", "w"]})]
    onmatch = [{"prev_classes": ["x", "y", "x", "x"], "next_classes": ["x", "x", "w"], "production": "$"}]
    onmatch += [{"prev_classes": ["c%d" % k], "next_classes": ["x"], "production": "(%d)" % k} for k in range(12)]
    onmatch += [{"prev_classes": ["w"], "next_classes": ["y"], "production": "^"}]
    return {"tokens": tokens, "rules": rules, "onmatch_rules": onmatch,
            "whitespace": {"default": " ", "token_class": "w", "consolidate": False},
            "metadata": {"k%d" % k: k for k in range(12)}}


MANY = _many()
MANY_ABC = "abdejk ?"
LONG = "cdcijklmace_abcdefd "  # the longest rule applies


def fixed(P, **over):
    """The feature-complete configuration, or the one with many parts."""
    s = cp(MANY if "many" in P else SETTINGS)
    s.update(over)
    return s


def fixed_text(W, P, name, n, abc="ab _?"):
    """A symbolic input for it; with "long" or "huge", a long one with one character symbolic."""
    if "many" not in P:
        return W.string(name, n, abc)
    if "huge" in P:
        t = LONG * P["huge"]
        k = W.choose(name + " at", [0, len(t) // 2, len(t) - 7])
        return t[:k] + W.string(name, 1, "abci ?") + t[k + 1:]
    if "long" in P:
        k = W.choose(name + " at", len(LONG) + 1)
        return LONG[:k] + W.string(name, 1, "abci ?") + LONG[k + 1:]
    return W.string(name, n, MANY_ABC)


def direct(s, **kw):
    """A transliterator from settings in dictionary form, by the constructor."""
    from graphtransliterator import GraphTransliterator, OnMatchRule, WhitespaceRules

    def full(r):
        return {p: r.get(p) or [] for p in PARTS}

    rules = [(full(r), r["production"]) for r in s["rules"]]
    rules = [rules[k] for k in sorted(range(len(rules)), key=lambda k: (-need(rules[k][0]), k))]
    om = [OnMatchRule(list(r["prev_classes"]), list(r["next_classes"]), r["production"])
          for r in s.get("onmatch_rules") or []]
    kw.setdefault("check_ambiguity", False)
    w = s["whitespace"]
    return kw.pop("cls", GraphTransliterator)(
        {k: set(v) for k, v in s["tokens"].items()},
        [ruleobj(*r) for r in rules],
        WhitespaceRules(w["default"], w["token_class"], w["consolidate"]),
        onmatch_rules=om or None,
        metadata=cp(s.get("metadata")),
        **kw
    )


def spec_tokens(tokens, ws, s, ign):
    """The documented tokenization; None if a character is not recognized."""
    default, wclass, cons = ws["default"], ws["token_class"], ws["consolidate"]
    names = sorted(tokens, key=len, reverse=True)
    scan = []
    pos = 0
    while pos < len(s):
        for t in names:
            if pos + len(t) <= len(s) and s[pos:pos + len(t)] == t:
                scan.append(t)
                pos += len(t)
                break
        else:
            if not ign:
                return None
            pos += 1
    if not cons:
        return [default] + scan + [default]
    out = []
    run = []
    for t in scan:
        if wclass in tokens[t]:
            run.append(t)
        else:
            if run and out:
                out.append(run[0] if len(run) == 1 else default)
            run = []
            out.append(t)
    return [default] + out + [default]


def spec_fits(r, toks, i, class_of):
    pc, pt, t, nt, nc = [r.get(p) or [] for p in PARTS]
    k = i - len(pt) - len(pc)
    if k < 0 or i + len(t) + len(nt) + len(nc) > len(toks):
        return False
    for c in pc:
        if not (c in class_of[toks[k]]):
            return False
        k += 1
    for x in list(pt) + list(t) + list(nt):
        if toks[k] != x:
            return False
        k += 1
    for c in nc:
        if not (c in class_of[toks[k]]):
            return False
        k += 1
    return True


def spec_rules(s):
    """The rules in the documented order: most tokens first, then as declared."""
    rules = s["rules"]

    def size(r):
        return sum(len(r.get(p) or []) for p in PARTS)

    return [rules[k] for k in sorted(range(len(rules)), key=lambda k: (-size(rules[k]), k))]


def spec(s, text, ign=False):
    """What transliterating `text` with settings `s` gives, by the documentation:
    ('ok', output) or ('exc', exception name), and the matched rules."""
    tokens = s["tokens"]
    toks = spec_tokens(tokens, s["whitespace"], text, ign)
    if toks is None:
        return ("exc", "UnrecognizableInputTokenException"), None, None
    rules = spec_rules(s)
    out = ""
    used = []
    i = 1
    while i < len(toks) - 1:
        for k, r in enumerate(rules):
            if spec_fits(r, toks, i, tokens):
                break
        else:
            if not ign:
                return ("exc", "NoMatchingTransliterationRuleException"), toks, used
            i += 1
            continue
        for om in s.get("onmatch_rules") or []:
            if spec_fits({"prev_classes": om["prev_classes"], "next_classes": om["next_classes"]},
                         toks, i, tokens):
                out += om["production"]
                break
        out += r["production"]
        used.append(k)
        i += len(r["tokens"])
    return ("ok", out), toks, used


CLASSES = [["x"], ["y"], ["y", "x"], []]


def symnames(W, n, m):
    """Settings with a token and a class whose names are any text."""
    t, c = W.string("token", n), W.string("class", m)
    if n == 1:
        W.assume(W.Not(W.Or(W.eq(t, "b"), W.eq(t, " "))))
    if m == 1:
        W.assume(W.Not(W.eq(c, "w")))
    return {
        "tokens": {t: ["w", c], "b": [c], " ": ["w"]},
        "rules": [{"production": "1", "tokens": [t, "b"], "prev_classes": [c, "w"], "prev_tokens": [t],
                   "next_tokens": [t, "b"], "next_classes": ["w", c]},
                  {"production": W.string("out", 1), "tokens": [t]}, {"production": "B", "tokens": ["b", t]},
                  {"production": "C", "tokens": ["b"], "prev_classes": [c]}],
        "onmatch_rules": [{"prev_classes": [c, "w"], "next_classes": [c], "production": ","},
                          {"prev_classes": ["w"], "next_classes": ["w", c], "production": c}],
        "whitespace": {"default": t, "token_class": c, "consolidate": True},
        "metadata": {c: t},
    }


def used(W, gt):
    """Uses a transliterator, and changes whether it ignores errors."""
    what = W.choose("use", 6)
    if what < 3:
        gt.dump(compression_level=what)
        gt.dumps(compression_level=what)
    elif what == 3:
        W.run(gt.transliterate, "a?ba b")
    elif what == 4:
        gt.pruned_of(["A"])
    if W.flag("flip"):
        gt.ignore_errors = not gt.ignore_errors


def longsettings(W, top):
    """Settings with a rule that needs any number of tokens up to the given one
    (in one of its parts or spread over all), and one that needs one less."""
    n = W.choose("needs", range(2, top + 1))
    k = W.choose("part", 4)
    names = {"prev_classes": "xw", "prev_tokens": "ab", "tokens": "aab", "next_tokens": "ba", "next_classes": "wxx"}

    def rule(n, out):
        p = ["prev_tokens", "tokens", "next_classes"][k] if k < 3 else None
        num = {q: 0 for q in PARTS}
        num["tokens"] = 1
        for j in range(n - 1):
            num[p or PARTS[j % 5]] += 1
        d = {q: [names[q][j % len(names[q])] for j in range(m)] for q, m in num.items() if m}
        d["production"] = out
        return d

    return {"tokens": {"a": ["x", "w"], "b": ["x"], " ": ["w"]},
            "rules": [rule(n - 1, "less"), rule(n, "more")],
            "whitespace": {"default": " ", "token_class": "w", "consolidate": False}}


def symsettings(W, P):
    """Settings in dictionary form with symbolic parts.  P: shapes of the rules,
    om: shapes of the on-match rules, and which parts are varied."""
    if "names" in P:
        return symnames(W, *P["names"])
    if "needs" in P:
        return longsettings(W, P["needs"])
    tok, cls = "ab ", "xw"
    s = {"tokens": {"a": ["x"], "b": [], " ": ["w"]}}
    if "classes" in P.get("vary", ""):
        s["tokens"]["a"] = list(W.choose("classes of a", [["x"], ["x", "w"], ["y", "x"]]))
        s["tokens"]["b"] = list(W.choose("classes of b", [[], ["y"], ["x", "y", "w"]]))
    rules = []
    for k, sh in enumerate(P["shapes"]):
        r = symrule(W, "r%d" % k, tuple(sh), tok, cls)
        d = {"production": W.string("out%d" % k, k % 3)}
        for p in PARTS:
            if r[p]:
                d[p] = r[p]
            elif "empty" in P.get("vary", "") and p != "tokens":
                e = W.choose("no r%d.%s" % (k, p), 3)
                if e:
                    d[p] = [None, []][e - 1]
        rules.append(d)
    s["rules"] = rules
    om = []
    for k, (m, n) in enumerate(P.get("om", [])):
        om.append({
            "prev_classes": [W.char("om%d.p%d" % (k, j), cls) for j in range(m)],
            "next_classes": [W.char("om%d.n%d" % (k, j), cls) for j in range(n)],
            "production": W.string("om%d.out" % k, 1 + k)})
    if om:
        s["onmatch_rules"] = om
    s["whitespace"] = {"default": " ", "token_class": "w",
                       "consolidate": W.flag("consolidate") if "cons" in P.get("vary", "") else False}
    if "meta" in P.get("vary", ""):
        m = W.choose("metadata", 4)
        if m:
            s["metadata"] = [{}, {"k": W.string("mv", 1)}, cp(SETTINGS["metadata"])][m - 1]
        o = W.choose("no onmatch", 2) if not om else 1
        if not o:
            s["onmatch_rules"] = []
    return s
