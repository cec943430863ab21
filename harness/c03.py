from hlib import *

META = {
    "bounds": {
        "quick": "every set of 1-3 tokens (lengths 1-3) besides the whitespace token, token and input characters symbolic over all of Unicode (surrogates excluded), inputs of <=2 (3 for 1-2 tokens) characters; the same sets and sets of 4 tokens over 2-3 characters (one of them a regex metacharacter or newline) with inputs of 3-4 characters; 16 fixed tokens of 1-13 characters with inputs of <=4 characters and of up to 26 characters of which 2 adjacent ones are symbolic, and of 1191 of which one is",
        "thorough": "sets of 1-4 tokens with arbitrary characters and inputs of <=4; over 2-3 characters sets of <=5 tokens (lengths 1-4), inputs of <=6",
    },
    "outside": "more or longer tokens, longer inputs, lone surrogates",
    "stubs": "re: a backtracking matcher over the pattern actually built by the code (escaping included), validated against CPython/PyPy on sampled paths; logging is a no-op",
}
BUDGET = {"quick": 90, "thorough": 2400}


def jobs(tier):
    big = tier == "thorough"
    sets = [[1], [2], [3], [1, 1], [1, 2], [2, 2], [1, 3], [2, 3], [1, 1, 2], [1, 2, 2], [1, 2, 3]]
    more = [[1, 1, 1, 2], [1, 1, 2, 2], [1, 2, 2, 3]]
    out = [{"tok": s, "n": n} for s in sets for n in range(3)]
    out += [{"tok": s, "n": 3} for s in sets if len(s) < 3]
    out += [{"tok": s, "n": 4, "abc": "ab"} for s in sets + more[1:]]
    out += [{"tok": s, "n": 3, "abc": "a|\n"} for s in sets if len(s) < 4]
    # many tokens, and long ones
    out += [{"many": 1, "pre": "", "n": n} for n in range(6 if big else 5)]
    out += [{"many": 1, "pre": p, "n": 2} for p in ("bcd" * 8, "cacbcabc", "bcacbcab")]
    out.append({"many": 1, "pre": "abcabbcdbcacbddab", "rep": 70, "n": 1, "fuel": 3000000})
    if big:
        out += [{"tok": s, "n": n} for s in sets for n in (3, 4)]
        out += [{"tok": s, "n": n, "abc": "ab"} for s in sets + more[1:] for n in (5, 6)]
        out += [{"tok": s, "n": 4, "abc": "ab|"} for s in sets + more]
        out += [{"tok": s, "n": 3} for s in more]
        out += [{"tok": s, "n": 4, "abc": "ab"} for s in ([1, 1, 1, 2, 2], [1, 1, 2, 3, 4])]
    return out


MANY_NAMES = ["a", "ab", "abc", "abcab", "abcabcabca", "abcabcabcabca", "b", "bcd", "bcdb", "bcdbcdbcdbcdc",
              "c", "ca", "cab", "d", "dddddddddddd", "ba"]


def body(W, P):
    from graphtransliterator import GraphTransliterator, WhitespaceRules

    many = "many" in P
    toks = MANY_NAMES if many else [W.string("tok%d" % k, n, P.get("abc")) for k, n in enumerate(P["tok"])]
    toks = toks + [" "]
    for p, q in itertools.combinations(range(len(toks)), 2):
        if not many and len(toks[p]) == len(toks[q]):
            W.assume(W.Not(W.eq(toks[p], toks[q])))
    order = W.choose("ws first", 2)
    tokens = {}
    for t in toks[::-1] if order else toks:
        tokens[t] = {"w"} if t is toks[-1] else set()
    gt = GraphTransliterator(
        tokens, [], WhitespaceRules(default=" ", token_class="w", consolidate=False),
        check_ambiguity=False)
    if many:
        # some text with symbolic characters in between
        pre = P["pre"] * P.get("rep", 1)
        m = len(pre)
        k = W.choose("where", m + 1 if m < 100 else [0, m // 2, m])
        s = pre[:k] + W.string("s", P["n"], "abcd ?") + pre[k:]
    else:
        s = W.string("s", P["n"], P.get("abc") and P["abc"] + " ")
    n = len(s)
    kind, res = W.run(gt.tokenize, s)

    def at(t, pos):
        return pos + len(t) <= n and W.eq(s[pos:pos + len(t)], t)

    W.observe([kind, res])
    if kind == "exc":
        W.check(res == "UnrecognizableInputTokenException", "other exception")
        W.cover("unrecognizable")
        # the greedy scan must get stuck: follow every greedy step
        stuck = {n: False}
        for pos in range(n - 1, -1, -1):
            some = W.Or(*[at(t, pos) for t in toks])
            nxt = []
            for t in toks:
                if pos + len(t) <= n:
                    longer = [at(u, pos) for u in toks if len(u) > len(t)]
                    nxt.append(W.And(at(t, pos), W.Not(W.Or(*longer)), stuck[pos + len(t)]))
            stuck[pos] = W.Or(W.Not(some), *nxt)
        W.check(stuck[0], "raised although every step has a token")
        return
    W.cover("tokenized")
    W.check(isinstance(res, list) and len(res) >= 2, "frame")
    W.check(W.eq(res[0], " "), "first token")
    W.check(W.eq(res[-1], " "), "last token")
    pos = 0
    for t in res[1:-1]:
        W.check(at(t, pos), "token is not a prefix of the rest")
        W.check(W.Or(*[W.eq(t, u) for u in toks]), "not a token")
        for u in toks:
            if len(u) > len(t):
                W.check(W.Not(at(u, pos)), "a longer token fits")
        pos += len(t)
    W.check(pos == n, "input not exhausted")
    W.check(W.eq("".join(res[1:-1]), s), "not lossless")
