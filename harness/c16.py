from hlib import *

META = {
    "bounds": {
        "quick": "rules with 0-2 previous classes, 0-2 previous tokens, 1-2 tokens, 0-2 next tokens and 0-2 next classes (all combinations); every name symbolic, over all Unicode scalar values except blanks, parentheses, angle brackets and line breaks, of 1 character (2 characters for rules with at most one name per part); in rules of 1-3 tokens without context, names that may contain any blank but space and newline; names of the same kind pairwise different and in ascending or descending order, or all the same; arbitrary 1-character productions; the lone blank as token",
        "thorough": "also 3 names per part for one part at a time, and names of 2 characters throughout",
    },
    "outside": "longer names; repeated blanks between the components; the text form in YAML files (C27)",
    "stubs": "re: backtracking matcher; logging is a no-op; marshmallow runs instrumented",
    "assumptions": ["a blank is any character matched by \\s"],
}
BUDGET = {"quick": 90, "thorough": 2400}
FORBIDDEN = " ()<>\n\r\t\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def jobs(tier):
    big = tier == "thorough"
    out = []
    for sh in itertools.product(range(3), range(3), (1, 2), range(3), range(3)):
        out.append({"shape": list(sh), "len": 1})
        if max(sh) == 1 or big:
            out.append({"shape": list(sh), "len": 2})
        if max(sh) == 2:
            out.append({"shape": list(sh), "len": 1, "same": 1})
    if big:
        for k in range(5):
            for sh in itertools.product(*[(3,) if j == k else ((1,) if j == 2 else (0, 1)) for j in range(5)]):
                out.append({"shape": list(sh), "len": 1})
    out.append({"blank": 1})
    # other blanks are nothing special in rules without context
    for n, ln in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1)) + (((3, 2), (4, 1)) if big else ()):
        out.append({"shape": [0, 0, n, 0, 0], "len": ln, "blanks": 1})
    return out


def name(W, n, ln, blanks=False):
    s = W.string(n, ln)
    for c in s:
        for f in " ()<>\n" if blanks else FORBIDDEN:
            W.assume(W.Not(W.eq(c, f)))
    return s


def notation(r):
    """The documented easy-reading notation of a rule."""
    pc = ["<" + c + ">" for c in r["prev_classes"]]
    nc = ["<" + c + ">" for c in r["next_classes"]]
    key = " ".join(r["tokens"])
    if r["prev_tokens"]:
        key = "(" + " ".join(pc + r["prev_tokens"]) + ") " + key
    elif pc:
        key = " ".join(pc) + " " + key
    if r["next_tokens"]:
        key = key + " (" + " ".join(r["next_tokens"] + nc) + ")"
    elif nc:
        key = key + " " + " ".join(nc)
    return key


def body(W, P):
    from graphtransliterator import GraphTransliterator

    out = W.string("out", 1)
    tokens = {"blank": ["w"], " ": ["w"]}
    r = {p: [] for p in PARTS}
    if "blank" in P:
        r["tokens"] = [" "]
        key = " "
    else:
        names = {"tokens": [], "classes": []}
        up = sum(P["shape"]) % 2
        for p, n in zip(PARTS, P["shape"]):
            kind = names[p[5:]] if p != "tokens" else names["tokens"]
            for k in range(n):
                if P.get("same") and kind:
                    x = kind[0]
                else:
                    x = name(W, p + str(k), P["len"], "blanks" in P)
                    W.assume(W.Not(W.Or(W.eq(x, "blank"), W.eq(x, "w"))))
                    if kind:
                        W.assume(kind[-1] < x if up else x < kind[-1])
                    kind.append(x)
                r[p].append(x)
        key = notation(r)
        for t in names["tokens"]:
            tokens[t] = []
        tokens["blank"] = ["w"] + names["classes"]
    s = {"tokens": tokens, "rules": {key: out},
         "whitespace": {"default": " ", "token_class": "w", "consolidate": False}}
    kind, gt = W.run(GraphTransliterator.from_easyreading_dict, s)
    W.observe(kind)
    W.check(kind == "ok", "the rule is refused")
    if kind != "ok":
        return
    W.cover("accepted")
    W.check(len(gt.rules) == 1, "not one rule")
    got = gt.rules[0]
    for p in PARTS:
        W.check(W.eq(list(getattr(got, p) or []), r[p]), "other " + p)
    W.check(W.eq(got.production, out), "another production")
    W.observe([list(getattr(got, p) or []) for p in PARTS])
