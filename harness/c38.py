from hlib import *
from c16 import notation

META = {
    "bounds": {
        "quick": "settings with 1 rule needing <=4 tokens, 2 rules needing <=2 or 1 on-match rule with <=2+<=2 classes beside one rule, every token and class referred to (rules, on-match rules, default whitespace, whitespace class) symbolic, including two undefined ones; settings with every reference of 3 rules, 2 on-match rules and the whitespace settings possibly undefined, two at a time, or one being any name of 1-2 of 14 characters (quotes, percent signs, braces, ...); 1-16 rules with an undefined name in each part, with none, one or as many on-match rules; from_dict and from_easyreading_dict",
        "thorough": "1 rule needing <=5 tokens, pairs needing <=3, three references at a time",
    },
    "outside": "the wording of the messages, beyond the quoted name and the production of the rule; bigger settings; malformed settings (C37)",
    "stubs": "re: backtracking matcher; logging is a no-op; marshmallow runs instrumented",
}
BUDGET = {"quick": 90, "thorough": 2400}
ONE = (0, 0, 1, 0, 0)
MARKS = "a?\"'%{}s0\\ \n<\u00e9\u0301"
FULL = {
    "tokens": {"a": ["x"], "b": ["y"], " ": ["w"]},
    "rules": [
        {"production": "out A", "tokens": ["a"]},
        {"production": "out B", "tokens": ["b", "a"], "prev_classes": ["x"], "prev_tokens": ["a"],
         "next_tokens": ["b"], "next_classes": ["y"]},
        {"production": "out S", "tokens": [" "], "prev_classes": ["x", "y"]},
    ],
    "onmatch_rules": [{"prev_classes": ["x"], "next_classes": ["y"], "production": "om A"},
                      {"prev_classes": ["y", "x"], "next_classes": ["y", "w"], "production": "om B"}],
    "whitespace": {"default": " ", "token_class": "w", "consolidate": False},
}


def jobs(tier):
    big = tier == "thorough"
    out = []
    for r in ("dict", "easy"):
        for s in shapes(5 if big else 4) if r == "dict" else shapes(4 if big else 3):
            out.append({"shapes": [s], "route": r})
        for om in [(1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2)] if big else []):
            out.append({"shapes": [ONE], "om": [om], "route": r})
    for a, b in itertools.combinations_with_replacement(shapes(3 if big else 2), 2):
        out.append({"shapes": [a, b], "route": "dict"})
    for k in range(len(references(FULL))):
        out.append({"first": k, "more": 2 if big else 1, "route": "dict"})
        for n in (1, 2, 3) if big else (1, 2):
            out.append({"first": k, "more": 0, "text": n, "route": "dict"})
        out.append({"first": k, "more": 1 if big else 0, "route": "easy"})
    for r in ("dict", "easy"):
        out.append({"many": 40 if big else 16, "route": r})
    return out


def many(W, top):
    """Settings with any number of rules up to the given one, all of whose parts are undefined."""
    n = W.choose("rules", range(1, top + 1))
    m = W.choose("onmatch", [0, 1, n])
    s = cp(FULL)
    s["rules"] = []
    s["onmatch_rules"] = []
    for k in range(n):
        s["rules"].append({"production": "out %d." % k, "tokens": ["a", "t%d" % k], "prev_classes": ["x", "p%d" % k],
                           "prev_tokens": ["q%d" % k], "next_tokens": ["r%d" % k], "next_classes": ["n%d" % k, "y"]})
    for k in range(m):
        s["onmatch_rules"].append({"prev_classes": ["P%d" % k], "next_classes": ["x", "N%d" % k], "production": "om %d." % k})
    s["whitespace"] = {"default": "d", "token_class": "c", "consolidate": False}
    return s


def references(s):
    """All places of the settings that name a token or class."""
    out = []
    for sec in ("rules", "onmatch_rules"):
        for r in s.get(sec) or []:
            for p in PARTS:
                for k in range(len(r.get(p) or [])):
                    out.append((sec, p, r[p], k, r["production"]))
    out.append(("whitespace", "default", s["whitespace"], "default", ""))
    out.append(("whitespace", "token_class", s["whitespace"], "token_class", ""))
    return out


def easy(s):
    out = dict(s, rules={notation({p: r.get(p) or [] for p in PARTS}): r["production"] for r in s["rules"]})
    if "onmatch_rules" in s:
        out["onmatch_rules"] = [
            {" ".join(["<" + c + ">" for c in o["prev_classes"]]) + " + " +
             " ".join(["<" + c + ">" for c in o["next_classes"]]): o["production"]} for o in s["onmatch_rules"]]
    return out


def body(W, P):
    from graphtransliterator import GraphTransliterator

    if "many" in P:
        s = many(W, P["many"])
    elif "first" in P:
        s = cp(FULL)
        refs = references(s)
        k = P["first"]
        for j in range(P["more"] + 1):
            sec, p, where, i, _ = refs[k]
            where[i] = (W.string("text", P["text"], MARKS) if "text" in P else
                        W.char("name%d" % j, "ax?!" if j == 0 else "b?!"))
            k = W.choose("next%d" % j, len(refs)) if j < P["more"] else k
    else:
        s = {"tokens": {"a": ["x"], "b": ["y"], " ": ["w"]}}
        s["rules"] = [ruledict(symrule(W, "r%d" % k, tuple(sh), "ab?!", "xy?!"), "out %d" % k)
                      for k, sh in enumerate(P["shapes"])]
        om = [{"prev_classes": [W.char("om%d.p%d" % (k, j), "xy?!") for j in range(m)],
               "next_classes": [W.char("om%d.n%d" % (k, j), "xy?!") for j in range(n)],
               "production": "om %d" % k} for k, (m, n) in enumerate(P.get("om", []))]
        if om:
            s["onmatch_rules"] = om
        ws = len(P["shapes"]) == 1
        s["whitespace"] = {"default": W.char("default", " ?") if ws else " ",
                           "token_class": W.char("wclass", "w?") if ws else "w", "consolidate": False}
    toks = list(s["tokens"])
    classes = [c for t in toks for c in s["tokens"][t]]
    # undefined: section -> list of names and the productions of their rules
    bad = {}
    for sec, p, where, i, rule in references(s):
        if where[i] not in (classes if p.endswith("class") or p.endswith("classes") else toks):
            bad.setdefault(sec, []).append((where[i], rule))
    messages = []
    if P["route"] == "easy":
        data = easy(s)
        if len(data["rules"]) < len(s["rules"]):
            return  # two rules became the same
        make = GraphTransliterator.from_easyreading_dict
    else:
        data = s
        make = GraphTransliterator.from_dict

    def refused():
        try:
            make(data, check_ambiguity=False)
        except Exception as e:
            messages.append(getattr(e, "messages", None))
            raise

    kind, r = W.run(refused)
    W.observe([kind, r if kind == "exc" else None])
    W.check((kind == "exc") == (bad != {}), "accepted although references are undefined, or refused without need")
    if kind == "ok" or not bad:
        W.cover("accepted")
        return
    W.cover("%d sections" % len(bad))
    m = messages[0]
    W.check(r == "ValidationError" and isinstance(m, dict), "refused without a list of messages by section")
    if r != "ValidationError" or not isinstance(m, dict):
        return
    W.check(sorted(m) == sorted(bad), "the sections with messages are not those with undefined references")
    for sec in bad:
        if sec not in m:
            continue
        W.check(isinstance(m[sec], list), "no list of messages")
        for name, rule in bad[sec]:
            W.check(W.Or(*[('"' + name + '"' in x) and rule in x for x in m[sec]]),
                    "an undefined reference is not reported")
    W.observe(sorted(m))
