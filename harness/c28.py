from hlib import *
from c25 import easy

META = {
    "bounds": {
        "quick": "settings with up to 3 classes on a token, class names symbolic (1 arbitrary Unicode character each, in ascending order), every order of writing the classes with one of 4 orders of writing the tokens each, every iteration order of sets of up to 3 members (applied to all sets of the package); rules and on-match rules over the symbolic classes; dictionary and easy-reading form; levels 1 and 2, as data and text; a feature-complete configuration with 3 classes on two tokens, and one with 17 tokens and 31 classes",
        "thorough": "4 classes on a token",
    },
    "outside": "sets of more members; token names are fixed; rules in another order are other settings; the iteration order of sets made otherwise than by their name is only explored symbolically",
    "stubs": "json: texts kept as structures, compared including key order; iteration order of sets is an input; re: backtracking matcher; marshmallow runs instrumented",
}
BUDGET = {"quick": 90, "thorough": 2400}
FUEL = 1000000


def jobs(tier):
    out = []
    for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for p in range(math.factorial(n)):
            for form in ("dict", "easy"):
                out.append({"n": n, "written": p, "form": form})
    for p in range(1, 4):
        out.append({"fixed": 1, "n": 3, "written": p, "form": "dict", "many": 1})
    for p in range(6):
        out.append({"fixed": 1, "n": 3, "written": p, "form": "dict"})
    return out


def perm(p, xs):
    """The p-th permutation of a list."""
    xs, out = list(xs), []
    while xs:
        p, k = divmod(p, len(xs))
        out.append(xs.pop(k))
    return out


def body(W, P):
    from graphtransliterator import GraphTransliterator

    n = P["n"]
    if "fixed" in P:
        s = fixed(P)
        if "many" not in P:
            s["tokens"] = {"b": ["y", "x"], "a": ["x", "v", "y"], "ab": ["z", "x", "y"], " ": ["w"], "_": ["w"]}
        written = lambda k: dict(s, tokens={t: perm(k, c) for t, c in s["tokens"].items()})
    else:
        cs = [W.char("c%d" % k) for k in range(n)]
        for a, b in zip(cs, cs[1:]):
            W.assume(a < b)
        for c in cs:
            W.assume(W.Not(W.Or(*[W.eq(c, x) for x in "w+<>() \t\n\r\x0b\x0c"])))
            if P["form"] == "easy":
                W.assume(W.And("!" <= c, c <= "~"))
        s = {"rules": [{"production": "A", "tokens": ["a"]},
                       {"production": "B", "tokens": ["a"], "prev_classes": [cs[0]], "next_classes": [cs[-1]]},
                       {"production": "C", "tokens": ["b", "a"]}],
             "onmatch_rules": [{"prev_classes": [cs[-1]], "next_classes": [cs[0]], "production": ","}],
             "whitespace": {"default": "_", "token_class": "w", "consolidate": True}}
        order = [["a", "b", "_"], ["b", "a", "_"], ["_", "b", "a"], ["a", "_", "b"]][(P["written"] + n) % 4]

        def written(k):
            t = {"a": perm(k, cs), "b": perm(k, cs[1:]), "_": ["w"]}
            return dict(s, tokens={x: t[x] for x in (order if k else ["a", "b", "_"])})

    first, second = written(0), written(P["written"])
    made = GraphTransliterator.from_dict
    if P["form"] == "easy":
        made = GraphTransliterator.from_easyreading_dict
        first, second = easy(first), easy(second)
    one = made(first, check_ambiguity=False)
    q = W.choose("iteration", math.factorial(n))
    W.set_order(None if not q else lambda xs: perm(q, xs))
    two = made(second, check_ambiguity=False)
    dumped = {}
    for level in (1, 2):
        dumped[level] = (two.dumps(compression_level=level), two.dump(compression_level=level),
                         two.dumps(compression_level=level))
        back = GraphTransliterator.loads(dumped[level][0])
        dumped[level] += (back.dumps(compression_level=level),)
    zero = (two.dumps(compression_level=0), two.dumps(compression_level=0))
    W.set_order(None)
    W.check(W.eq(zero[0], zero[1]), "dumping twice gives different texts at level 0")
    zero = one.dumps(compression_level=0)
    back = GraphTransliterator.loads(zero)
    W.check(W.eq(zero, back.dumps(compression_level=0)), "dumping a reloaded dump gives another text at level 0")
    for level in (1, 2):
        text, data, again, back = dumped[level]
        W.cover("level %d" % level)
        W.check(W.eq(text, one.dumps(compression_level=level)), "equal settings, different dumps (text)")
        W.check(W.eq(data, one.dump(compression_level=level)), "equal settings, different dumps")
        W.check(W.eq(text, again), "dumping twice gives different texts")
        W.check(W.eq(text, back), "dumping a reloaded dump gives another text")
    W.observe(one.productions)
