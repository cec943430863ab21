from hlib import *
from c09 import possible

META = {
    "bounds": {
        "quick": "every input of <=3 arbitrary characters to a transliterator with a token of two characters, a token without a rule and whitespace, consolidation on or off, errors ignored or not; inputs of 161 characters with 100 errors and one symbolic character; sets of two rules needing <=3 tokens and three needing <=2, of equal number, symbolic tokens and classes, with and without a cheaper rule that covers them all, checked for ambiguity; coverage checks after transliterating any input of <=2 characters with 3 rules and 2 on-match rules",
        "thorough": "inputs of 4 characters, pairs needing <=4 and triples needing <=3 tokens",
    },
    "outside": "the wording of messages, beyond the values they must name; further messages below the level of warnings",
    "stubs": "logging records the messages; re: backtracking matcher",
}
BUDGET = {"quick": 90, "thorough": 2400}


def jobs(tier):
    big = tier == "thorough"
    out = []
    for n in (0, 1, 2, 3) + ((4,) if big else ()):
        for cons in (0, 1):
            for call in ("transliterate", "tokenize"):
                out.append({"n": n, "cons": cons, "call": call})
    for cons in (0, 1):
        out.append({"n": 1, "cons": cons, "call": "transliterate", "pre": "a?ab_cc ", "rep": 20, "fuel": 3000000})
    for sh in itertools.combinations_with_replacement(shapes(4 if big else 3), 2):
        if sum(sh[0]) == sum(sh[1]):
            out.append({"shapes": [list(s) for s in sh]})
    for sh in itertools.combinations_with_replacement(shapes(3 if big else 2), 3):
        if len(set(map(sum, sh))) == 1:
            out.append({"shapes": [list(s) for s in sh]})
            if sum(sh[0]) < 3:
                out.append({"shapes": [list(s) for s in sh[:2]], "cover": 1})
    for n in (0, 1, 2):
        out.append({"coverage": n})
    return out


def names(msg, value):
    """The message contains this number, not as part of another one."""
    text = " " + msg + " "
    i = text.find(value)
    while i >= 0:
        if not ("0" <= text[i - 1] <= "9") and not ("0" <= text[i + len(value)] <= "9"):
            return True
        i = text.find(value, i + 1)
    return False


def body(W, P):
    if "shapes" in P:
        ambiguity(W, P)
    elif "coverage" in P:
        coverage(W, P)
    else:
        errors(W, P)


SET = {"tokens": {"ab": ["x"], "a": [], "c": [], "_": ["w"], "-": ["w"]},
       "rules": [{"production": "X", "tokens": ["ab"]}, {"production": "C", "tokens": ["c"], "prev_classes": ["x"]},
                 {"production": "S", "tokens": ["_"]}],
       "whitespace": {"default": "_", "token_class": "w", "consolidate": False}}


def errors(W, P):
    s = cp(SET)
    s["whitespace"]["consolidate"] = bool(P["cons"])
    ign = W.flag("ignore")
    gt = direct(s, ignore_errors=ign)
    text = W.string("s", P["n"], "abc_ ?-" if "pre" in P else None)
    if "pre" in P:
        pre = P["pre"] * P["rep"]
        k = W.choose("where", [0, len(pre) // 2, len(pre)])
        text = pre[:k] + text + pre[k:]
    W.logged()
    kind, res = W.run(getattr(gt, P["call"]), text)
    msgs = W.logged()
    W.check(None not in msgs, "a message cannot be formatted")
    if None in msgs:
        return
    W.observe([kind, len(msgs)])
    # characters that no token starts at
    bad, pos = [], 0
    while pos < len(text):
        if text[pos:pos + 2] == "ab":
            pos += 2
        else:
            if not (text[pos] == "a" or text[pos] == "c" or text[pos] == "_" or text[pos] == "-"):
                bad.append(pos)
                if not ign:
                    break
            pos += 1
    stuck = []
    if P["call"] == "transliterate" and (ign or not bad):
        toks = spec_tokens(s["tokens"], s["whitespace"], text, True)
        rules = spec_rules(s)
        i = 1
        while i < len(toks) - 1:
            if not [r for r in rules if spec_fits(r, toks, i, s["tokens"])]:
                stuck.append(i)
                if not ign:
                    break
            i += 1
    W.cover("%d bad, %d stuck" % (len(bad), len(stuck)))
    W.check(len(msgs) == len(bad) + len(stuck), "not one warning for every error")
    if len(msgs) != len(bad) + len(stuck):
        return
    for m, p in zip(msgs, bad):
        W.check(names(m, str(p)), "the warning does not name the position of the character")
        W.check(m.find(text[p]) >= 0, "the warning does not name the character")
    for m, i in zip(msgs[len(bad):], stuck):
        W.check(names(m, str(i)), "the warning does not name the position of the token")
    W.check((kind == "exc") == bool(not ign and msgs), "warnings and exceptions do not go together")


def notation(r):
    pc, pt, tk, nt, nc = [r[p] for p in PARTS]
    pc, nc = ["<" + c + ">" for c in pc], ["<" + c + ">" for c in nc]
    key = " ".join(tk)
    if pt:
        key = "(" + " ".join(pc + pt) + ") " + key
    elif pc:
        key = " ".join(pc) + " " + key
    if nt:
        key = key + " (" + " ".join(nt + nc) + ")"
    elif nc:
        key = key + " " + " ".join(nc)
    return key


def ambiguity(W, P):
    from graphtransliterator import GraphTransliterator, WhitespaceRules

    rules = symrules(W, [tuple(s) for s in P["shapes"]], "ab", "xw")
    if "cover" in P:
        # a cheaper rule in every context of the first rule
        r = {p: list(rules[0][p]) for p in PARTS}
        r["prev_classes"] = ["all"] * (need(r) + 1) + r["prev_classes"]
        rules = [r] + rules
    cls = W.choose("cls", [["x"], ["w"], ["x", "w"]])
    class_of = {"a": {"x", "all"}, "b": set(cls) | {"all"}, " ": {"w", "all"}}
    by_class = {c: {t for t in class_of if c in class_of[t]} for c in ("x", "w", "all")}
    W.logged()

    def make():
        return GraphTransliterator(
            class_of, [ruleobj(r, "P%d" % k) for k, r in enumerate(rules)],
            WhitespaceRules(default=" ", token_class="w", consolidate=False), tokens_by_class=by_class)

    kind, res = W.run(make)
    msgs = W.logged()
    W.check(None not in msgs, "a message cannot be formatted")
    if None in msgs:
        return
    W.check((kind == "exc") == bool(msgs), "warnings and exceptions do not go together")
    W.observe([kind, len(msgs)])
    lines = [[ln.strip() for ln in m.splitlines()] for m in msgs]
    first = 1 if "cover" in P else 0
    count = 0
    for p, q in itertools.combinations(range(first, len(rules)), 2):
        both = []
        for k in range(-4, 5):
            both.append(W.Or(*[W.And(possible(W, rules[p], k, t, class_of), possible(W, rules[q], k, t, class_of))
                               for t in class_of]))
        a, b = notation(rules[p]), notation(rules[q])
        if first == 0 and W.And(*both):
            count += 1
            W.check([1 for ln in lines if a in ln and b in ln], "no warning names both rules of a conflict")
    W.check(len(msgs) >= (1 if count else 0) and len(msgs) <= count, "other warnings")
    W.cover("%d conflicts" % count)


def coverage(W, P):
    from graphtransliterator import CoverageTransliterator

    s = cp(SET)
    s["rules"].append({"production": "A", "tokens": ["a", "c"]})
    s["onmatch_rules"] = [{"prev_classes": ["x"], "next_classes": ["x"], "production": ","},
                          {"prev_classes": ["w"], "next_classes": ["x"], "production": ";"}]
    gt = direct(s, cls=CoverageTransliterator, ignore_errors=True)
    text = W.string("s", P["coverage"], ["ab", "a", "c", "_"][0] + "c_")
    if W.flag("more"):
        W.run(gt.transliterate, "abc_ac")
    if W.flag("pairs"):
        W.run(gt.transliterate, "abab")
    W.run(gt.transliterate, text)
    raises = W.flag("raise")
    W.logged()
    kind, res = W.run(gt.check_onmatchrules_coverage, raise_exception=raises)
    msgs = W.logged()
    W.check((kind == "exc" or not res) == bool(msgs), "missed on-match rules and warnings do not go together")
    seen = set(gt.onmatch_rules.visited)
    missed = [k for k in range(2) if k not in seen]
    W.check(len(msgs) == len(missed), "not one warning for every missed on-match rule")
    for m, k in zip(msgs, missed):
        W.check(names(m, str(k)), "the warning does not name the on-match rule")
    g = gt.graph
    nodes = [k for k in range(len(g.node.data)) if k not in g.node.visited]
    edges = [(h, t) for h in g.edge.data for t in g.edge.data[h].data if t not in g.edge.data[h].visited]
    kind, res = W.run(gt.check_coverage, raise_exception=raises)
    msgs = W.logged()
    if nodes or edges:
        W.check(len(msgs) == len(nodes) + len(edges), "not one warning for every missed node and edge")
        for k in nodes:
            W.check(W.Or(*[names(m, str(k)) for m in msgs]), "no warning names the node")
        for h, t in edges:
            W.check(W.Or(*[names(m, str(h)) and names(m, str(t)) for m in msgs]),
                    "no warning names the edge")
    W.check(None not in msgs, "a message cannot be formatted")
    W.check((kind == "exc" or not res) == bool(msgs), "missed parts and warnings do not go together")
    W.observe([kind, len(msgs)])
    W.cover("coverage %d" % bool(msgs))
