from hlib import *
from c25 import easy

META = {
    "bounds": {
        "quick": "a bundled transliterator (2-4 rules, an on-match rule, a productionless token; from YAML or JSON, with and without coverage, errors ignored or not) and the bundled Example; 0-3 tests (also after 11 others; none also as an empty file) whose sources of 0-2 symbolic characters and targets of 0-3 symbolic characters are arbitrary, or numbers, truth values and null, as source or target, as YAML gives them; run_tests, run_yaml_tests, the test command, and dump-tests in both formats (file text symbolic)",
        "thorough": "sources of 3 characters, targets of up to 4 characters",
    },
    "outside": "Python run without assertions (-O); the text YAML files consist of; coverage after running tests (C22)",
    "stubs": "yaml reader returns the settings or the tests; files are virtual; click as in C26; re: backtracking matcher",
}
BUDGET = {"quick": 90, "thorough": 2400}
PRELOAD = ["graphtransliterator", "graphtransliterator.cli", "graphtransliterator.transliterators"]
HOW = ["run_tests", "run_yaml_tests", "cli"]
ODD = [(1, 1), (None, "None"), (True, "True"), (1.5, "1.5"), ("1", 1), (12, "ab"), ("a", None), ("a", False), ("?", None)]


def jobs(tier):
    big = tier == "thorough"
    out = []
    for how in HOW:
        for k, ns in enumerate([[], [(0, 0)], [(1, 1)], [(1, 2)], [(2, 2)], [(2, 3)], [(1, 1), (1, 1)], [(1, 0), (2, 1)],
                                [(1, 1), (0, 0), (1, 1)]]
                               + ([[(3, 3)], [(3, 4)], [(2, 2), (2, 2)]] if big else [])):
            for src in ("yaml", "json") if sum(map(sum, ns)) < 4 else ("json",):
                out.append({"how": how, "ns": ns, "src": src, "cov": k % 2})
        out.append({"how": how, "ns": [(1, 1)], "src": "json", "cov": 0, "more": 11})
        out.append({"how": how, "ns": [], "odd": 1, "src": "json", "cov": 0})
        if how != "run_tests":
            out.append({"how": how, "ns": [], "empty": 1, "src": "yaml", "cov": 0})
        out.append({"how": how, "ns": [(1, 1)], "bundled": 1})
        out.append({"how": how, "ns": [(2, 2)], "bundled": 1})
    for to in ("yaml", "json", ""):
        out.append({"dump": to, "ns": [(1, 1), (2, 0)]})
        out.append({"dump": to, "ns": [], "odd": 1})
        out.append({"dump": to, "ns": [], "empty": 1})
    return out


def conf():
    return {"tokens": {"a": ["x"], "b": ["y"], "1": [], "_": ["w"]},
            "rules": [{"production": "A", "tokens": ["a"]}, {"production": "1", "tokens": ["1"]},
                      {"production": "", "tokens": ["a", "b"]}, {"production": "aa", "tokens": ["a", "a"]}],
            "onmatch_rules": [{"prev_classes": ["x"], "next_classes": ["x"], "production": ","}],
            "whitespace": {"default": "_", "token_class": "w", "consolidate": False}}


def copied(x):
    if isinstance(x, dict):
        return {k: copied(v) for k, v in x.items()}
    if isinstance(x, list):
        return [copied(y) for y in x]
    return x


def made(W, P, tests):
    """The module with a class whose settings and tests are these."""
    import os
    import graphtransliterator.transliterators as bundled
    from graphtransliterator import GraphTransliterator

    s = conf()
    if "ambiguous" in P:
        s["rules"] += [{"production": "b", "tokens": ["b"], "prev_classes": ["x"]},
                       {"production": "c", "tokens": ["b"], "next_classes": ["y"]}]
    where = os.path.dirname(W.virtual_file("mine.yaml", "settings: here\n"))
    W.virtual_file("mine.json", GraphTransliterator.from_dict(s, check_ambiguity=False).dumps())
    W.virtual_file("tests/mine_tests.yaml", P.get("text", "tests: here\n"))

    class Mine(bundled.Bundled):
        def _module_dir(self):
            return where

        def _module_name(self):
            return "mine"

        def __init__(self, **kw):
            self.from_JSON(**kw)

    def read(f):
        text = f if isinstance(f, str) else f.read()
        return copied(easy(s)) if text == "settings: here\n" else None if "empty" in P else dict(tests)

    W.on_yaml(read)
    bundled.Mine = Mine
    return Mine


def body(W, P):
    import os
    import yaml
    import graphtransliterator.cli
    import graphtransliterator.transliterators as bundled

    tests = {}
    for k in range(P.get("more", 0)):
        tests["1" * (k + 2)] = "1" * (k + 2)
    for k, (m, n) in enumerate(P["ns"]):
        src = W.string("s%d" % k, m, "ab1_?" if m < 2 else "ab?")
        for other in tests:
            W.assume(W.Not(W.eq(src, other)))
        tests[src] = W.string("t%d" % k, n, "Aa1,c")
    if "odd" in P:
        a, b = W.choose("odd", ODD)
        tests = {a: b}
        tests.setdefault("a", "A")
    if "dump" in P:
        return dump(W, P, tests)
    how = P["how"]
    if "bundled" in P:
        name = "Example"
        cls = bundled.Example
        gt = cls.new()
        with open(os.path.join(gt.directory, gt.name + ".yaml"), "r") as f:
            text = f.read()
        full = yaml.safe_load(text)
        W.on_yaml(lambda f: copied(full) if "tokens:" in str(f if isinstance(f, str) else f.read()) else dict(tests))
        ign = False
    else:
        name = "Mine"
        cls = made(W, P, tests)
        ign = W.flag("ignore") if how != "cli" else False
        gt = cls.new(method=P["src"], coverage=bool(P["cov"]), ignore_errors=ign)
    want = []
    for a, b in tests.items():
        kind, v = W.run(gt.transliterate, str(a))
        want.append(v if kind == "exc" else ("ok" if W.eq(v, str(b)) else "AssertionError"))
    bad = [w for w in want if w != "ok"]
    if how == "run_tests":
        kind, v = W.run(gt.run_tests, tests)
    elif how == "run_yaml_tests":
        kind, v = W.run(gt.run_yaml_tests)
        W.check(kind == "exc" or v is True, "success is not reported")
    else:
        opts = W.choose("flag", [[], ["-ca"], ["-nca"]])
        kind, v = W.cli(["test"] + opts + [name])
        W.check(kind == "exc" or W.prints(v, True), "success is not reported")
    W.observe([kind, v if kind == "exc" else None])
    W.cover("%s %s" % (how, kind))
    if bad:
        W.check(kind == "exc", "succeeds although an output is not as expected")
        W.check(kind != "exc" or v in bad, "fails for another reason")
    else:
        W.check(kind == "ok", "fails although every output is as expected")
    W.on_yaml(None)


def dump(W, P, tests):
    if P["dump"] != "json":
        text = W.string("text", 3)
        W.assume(W.Not(W.isin("\r", text)))
        P = dict(P, text="# " + text + "\ntests: here\n")
    made(W, P, tests)
    kind, v = W.cli(["dump-tests"] + (["--to", P["dump"]] if P["dump"] else []) + ["Mine"])
    W.check(kind == "ok", "cannot be dumped")
    if kind != "ok":
        return
    W.cover("dump " + P["dump"])
    if P["dump"] != "json":
        W.check(W.prints(v, P["text"]), "another text than that of the file")
        return
    d = W.printed_json(v)
    W.observe(list(d.items()))
    W.check(W.eq(list(d.items()), [(str(a), str(b)) for a, b in tests.items()]), "other tests")
    W.on_yaml(None)
