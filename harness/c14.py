from hlib import *

META = {
    "bounds": {
        "quick": "recorded versions of 1-4 dotted numbers of 1-2 symbolic digits each, of 3 numbers of which one has 3 digits, and none at all, against the running version; dump levels 0, 1, 2, as data and as JSON text, whole or as a partial dictionary; versions given as the option of load; loaded once and a second time",
        "thorough": "numbers of 1-3 symbolic digits",
    },
    "outside": "versions with letters (1.3.0rc1) or leading zeros; versions that differ only by trailing zeros (1.2.4.0)",
    "stubs": "json: texts kept as structures; re: backtracking matcher",
}
BUDGET = {"quick": 90, "thorough": 1500}
FORMS = ["data0", "data1", "data2", "text0", "text1", "text2", "bare", "option"]


def jobs(tier):
    lens = (1, 2, 3) if tier == "thorough" else (1, 2)
    out = []
    for n in (1, 2, 3, 4):
        for ls in itertools.product(lens, repeat=n):
            if n == 4 and max(ls) > 1:
                continue
            for k, f in enumerate(FORMS):
                if sum(ls) > 3 and tier == "quick" and k % 4 != sum(ls) % 4:
                    continue
                if n == 4 and f not in ("data0", "text2"):
                    continue
                out.append({"lens": list(ls), "form": f})
    for f in FORMS:
        out.append({"lens": [], "form": f})
        # numbers of more digits than any of the running version
        for k in range(3):
            out.append({"lens": [1] * k + [3] + [1] * (2 - k), "form": f})
    return out


def body(W, P):
    import json
    import graphtransliterator
    from graphtransliterator import GraphTransliterator

    running = [int(x) for x in graphtransliterator.__version__.split(".")]
    parts = [W.string("v%d" % k, n, "0123456789") for k, n in enumerate(P["lens"])]
    version = ".".join(parts)
    nums = [int(p) for p in parts]
    for p in parts:
        if len(p) > 1:
            W.assume(W.Not(W.eq(p[0], "0")))
    later = False
    same = True
    for k in range(max(len(nums), len(running))):
        a = nums[k] if k < len(nums) else 0
        b = running[k] if k < len(running) else 0
        later = W.Or(later, W.And(same, a > b))
        same = W.And(same, a == b)
    if len(nums) > len(running):
        W.assume(nums[-1] > 0)
    elif 0 < len(nums) < len(running):
        W.assume(W.Not(same))
    form = P["form"]
    s = {"tokens": {"a": ["x"], " ": ["w"]}, "rules": [{"production": "A", "tokens": ["a"]}],
         "whitespace": {"default": " ", "token_class": "w", "consolidate": False}}
    gt = direct(s)
    level = int(form[-1]) if form[-1].isdigit() else 0
    d = dict(gt.dump(compression_level=level))
    if form in ("bare", "option"):
        d = {k: d[k] for k in ("tokens", "rules", "whitespace")}
    opts = {}
    if parts:
        if form == "option":
            opts["graphtransliterator_version"] = version
        else:
            d["graphtransliterator_version"] = version
    else:
        d.pop("graphtransliterator_version", None)
    t = json.dumps(d) if form.startswith("text") else None

    def load():
        if t is not None:
            return W.run(GraphTransliterator.loads, t)
        return W.run(GraphTransliterator.load, d, **opts)

    kind, r = load()
    W.observe([kind, r if kind == "exc" else None])
    # again
    again = load()
    W.check(again[0] == kind and (kind == "ok" or again[1] == r), "loaded otherwise the second time")
    if kind == "exc":
        W.cover("refused")
        W.check(r == "IncorrectVersionException", "another error is raised")
        W.check(later, "a version that is not later is refused")
    else:
        W.cover("accepted")
        W.check(W.Not(later), "a later version is accepted")
        W.check(W.eq(r.transliterate("a"), "A"), "loaded transliterator differs")
