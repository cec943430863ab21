from hlib import *

TOK = "ab "
CLS = "bw"  # one is named like a token
META = {
    "bounds": {
        "quick": "tokens a, b, ab, c (unmatched or matched by a symbolic rule) and whitespace; one or two symbolic rules needing <=2 tokens; every input of <=4 characters over the tokens' characters and one unknown character, errors ignored or not (switched before, between and after calls), consolidation on/off; and one or two one-character tokens and inputs of <=3 characters, all arbitrary Unicode, errors ignored; a configuration with 42 rules, inputs of <=2 characters, one of 20 characters with one, anywhere, symbolic, one of 1100 with one of three symbolic, and runs of up to 12 alike symbolic characters",
        "thorough": "two symbolic rules needing <=3 tokens, inputs of <=5 characters, unknown characters arbitrary Unicode",
    },
    "outside": "more rules or longer inputs",
    "stubs": "re: backtracking matcher; logging is a no-op",
}
BUDGET = {"quick": 90, "thorough": 2400}
NAMES = ["a", "b", "ab", " "]


def jobs(tier):
    big = tier == "thorough"
    out = []
    for s in shapes(3 if big else 2):
        for n in range(6 if big else 5):
            out.append({"shapes": [s], "n": n, "how": 4 if n < 3 else 2, "cons": 2 if n < 4 else 1})
    for s1, s2 in itertools.combinations_with_replacement(shapes(3 if big else 2), 2):
        out.append({"shapes": [s1, s2], "n": 2, "how": 4, "cons": 2})
        out.append({"shapes": [s1, s2], "n": 4 if big else 3, "how": 2, "cons": 1})
    for toks in ([1], [1, 1]) if not big else ([1], [1, 1], [2], [1, 2]):
        for n in range(1, 4):
            out.append({"toks": toks, "n": n})
    for n in (1, 2, 3) if big else (1, 2):
        out.append({"shapes": [(0, 0, 1, 0, 0)], "n": n, "any": 1, "how": 2, "cons": 2})
    out += [{"many": 1, "n": n} for n in ((1, 2, 3) if big else (1, 2))] + [{"many": 1, "n": 0, "long": 1}, {"many": 1, "n": 0, "huge": 55, "fuel": 3000000}]
    out.append({"many": 1, "n": 0, "runs": 12})
    return out


def many(W, P):
    """The configuration with many parts, a long text, or many errors in one."""
    ign = W.flag("ignore")
    if "runs" in P:
        s = W.char("c", "ab l?") * W.int("m", 0, P["runs"]) + "a" + W.char("d", "ab l?") * P["runs"]
    else:
        s = fixed_text(W, P, "s", P["n"])
    gt = direct(MANY, ignore_errors=not ign)
    gt.ignore_errors = ign
    r = W.run(gt.transliterate, s)
    W.observe(list(r))
    W.cover("many")
    W.check(W.eq(list(r), list(spec(MANY, s, ign)[0])), "another result or error")


def free(W, P):
    """Tokens and inputs of arbitrary characters, errors ignored."""
    from graphtransliterator import GraphTransliterator, TransliterationRule, WhitespaceRules

    toks = [W.string("tok%d" % k, n) for k, n in enumerate(P["toks"])]
    for k, t in enumerate(toks):
        W.assume(W.Not(W.eq(t, " ")))
        for u in toks[:k]:
            W.assume(W.Not(W.eq(t, u)))
    tokens = {" ": {"w"}}
    rules = []
    for k, t in enumerate(toks):
        tokens[t] = set()
        rules.append(TransliterationRule("AB"[k], None, None, [t], None, None, cost(1)))
    cons = W.flag("consolidate")
    gt = GraphTransliterator(tokens, rules, WhitespaceRules(" ", "w", cons),
                             ignore_errors=True, check_ambiguity=False)
    n = P["n"]
    s = W.string("s", n)
    kind, res = W.run(gt.transliterate, s)
    W.observe([kind, res])
    W.check(kind == "ok", "raised although errors are ignored")
    want, pos = "", 0
    while pos < n:
        for k in sorted(range(len(toks)), key=lambda k: -len(toks[k])):
            if s[pos:pos + len(toks[k])] == toks[k]:
                want += "AB"[k]
                pos += len(toks[k])
                break
        else:
            pos += 1
    W.cover("free")
    W.check(W.eq(res, want), "wrong output, ignoring errors")


def body(W, P):
    from graphtransliterator import GraphTransliterator, WhitespaceRules

    if "toks" in P:
        return free(W, P)
    if "many" in P:
        return many(W, P)
    cons = bool(W.choose("consolidate", P["cons"]))
    sh = [tuple(s) for s in P["shapes"]]
    rules = [ruleobj(r, "PQ"[k]) for k, r in enumerate(symrules(W, sh, TOK, CLS))]
    class_of, by_class = W.relation("cls", NAMES, [CLS[0]], {" ": ["w"]})

    def make(ign):
        return build(W, list(rules), class_of, by_class, consolidate=cons, ignore_errors=ign)

    # how the setting comes about: given, or switched, also after another run
    how = W.choose("how", P["how"])
    ign = how in (1, 3)
    gt = make(how in (1, 2))
    if how >= 2:
        if W.flag("run before"):
            W.run(gt.transliterate, "ab ?a")
        gt.ignore_errors = ign
    W.check(gt.ignore_errors == ign, "the setting is not reported")
    n = P["n"]
    s = W.string("s", n, None if "any" in P else "ab ?")
    kind, res = W.run(gt.transliterate, s)
    W.observe([kind, res])

    # the scan
    scan = []
    pos = 0
    unrecognized = False
    while pos < n:
        for t in sorted(NAMES, key=len, reverse=True):
            if s[pos:pos + len(t)] == t:
                scan.append(t)
                pos += len(t)
                break
        else:
            unrecognized = True
            pos += 1
    if unrecognized and not ign:
        W.cover("unrecognizable")
        W.check(kind == "exc" and res == "UnrecognizableInputTokenException", "unrecognizable token error expected")
        return
    if kind == "exc":
        W.check(not ign, "raised although errors are ignored")
        W.check(res == "NoMatchingTransliterationRuleException", "unexpected exception")
    if cons:
        # (whitespace class of the other tokens does not contain 'w')
        t2 = []
        for t in scan:
            if not (t == " " and (not t2 or t2[-1] == " ")):
                t2.append(t)
        while t2 and t2[-1] == " ":
            t2.pop()
        scan = t2
    toks = [" "] + scan + [" "]
    ref = make(ign)
    i = 1
    want = ""
    missing = False
    while i < len(toks) - 1:
        k = ref.match_at(i, toks)
        if k is None:
            missing = True
            if not ign:
                break
            i += 1
            continue
        want += rules[k].production
        i += len(rules[k].tokens)
    if missing and not ign:
        W.cover("no rule")
        W.check(kind == "exc" and res == "NoMatchingTransliterationRuleException", "no-matching-rule error expected")
        return
    W.cover("result, ignoring" if ign else "result")
    W.check(kind == "ok", "raised without reason")
    if kind == "ok":
        W.check(W.eq(res, want), "wrong output")
        W.check(W.eq(gt.last_input_tokens, toks), "wrong tokens")
