from hlib import *

META = {
    "bounds": {
        "quick": "4 single-character tokens plus a two-character one, class memberships of all but the default whitespace symbolic (any subset may be whitespace), consolidation on and off, errors ignored or not, every input of <=5 characters over the token characters and one unknown character; inputs of 1121 characters of which one is symbolic",
        "thorough": "inputs of <=7 characters, and the default whitespace also a two-character token",
    },
    "outside": "more tokens, longer inputs; a default whitespace that is not in the whitespace class",
    "stubs": "re: backtracking matcher over the pattern built by the code; logging is a no-op",
}


def jobs(tier):
    out = []
    for n in range(8 if tier == "thorough" else 6):
        for d in (" ", "_", "  "):
            for cons in (True, False):
                out.append({"n": n, "default": d, "cons": cons})
    for d in (" ", "_"):
        for cons in (True, False):
            out.append({"n": 1, "pre": " _a  a_ a___?  a", "rep": 70, "default": d, "cons": cons, "fuel": 3000000})
    return out


def body(W, P):
    from graphtransliterator import GraphTransliterator, WhitespaceRules

    d = P["default"]
    names = ["a", " ", "_", "a_"] + (["  "] if d == "  " else [])
    class_of, by_class = W.relation("cls", names, ["w", "x"], {d: ["w"]})
    ign = W.flag("ignore")
    gt = GraphTransliterator(
        class_of, [], WhitespaceRules(default=d, token_class="w", consolidate=P["cons"]),
        check_ambiguity=False, tokens_by_class=by_class, ignore_errors=ign)
    n = P["n"]
    s = W.string("s", n, "a _?")
    if "pre" in P:
        pre = P["pre"] * P["rep"]
        k = W.choose("where", [0, len(pre) // 2, len(pre)])
        s = pre[:k] + s + pre[k:]
        n = len(s)
    kind, res = W.run(gt.tokenize, s)
    W.observe([kind, res])
    # the scan, read off the input: greedy, unknown characters skipped one by one
    scan = []
    pos = 0
    stuck = False
    while pos < n:
        for t in sorted(names, key=len, reverse=True):
            if s[pos:pos + len(t)] == t:
                scan.append(t)
                pos += len(t)
                break
        else:
            stuck = True
            pos += 1
    if kind == "exc":
        W.check(res == "UnrecognizableInputTokenException", "other exception")
        W.check(stuck and not ign, "raised without need")
        return
    W.check(not stuck or ign, "did not raise")
    W.check(len(res) >= 2 and W.And(W.eq(res[0], d), W.eq(res[-1], d)), "frame")
    if not P["cons"]:
        W.check(W.eq(res, [d] + scan + [d]), "consolidation off: tokens dropped or added")
        return
    want = []
    run = []
    for t in scan:
        if "w" in class_of[t]:
            run.append(t)
        else:
            if run and want:
                want.append(run[0] if len(run) == 1 else d)
            run = []
            want.append(t)
    W.cover("%d inner" % len(want))
    W.check(W.eq(res, [d] + want + [d]), "consolidation on: wrong tokens")
    for p, q in zip(res, res[1:]):
        if len(res) > 2:
            W.check(W.Not(W.And(W.isin("w", class_of[p]), W.isin("w", class_of[q]))), "adjacent whitespace")
