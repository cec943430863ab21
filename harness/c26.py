from hlib import *
from c25 import easy

META = {
    "bounds": {
        "quick": "transliterate: every source format (bundled, json, json_file, yaml_file), the ambiguity and error flags and the output option given or left out (for one input of one character, in every spelling and combination), 0-3 inputs of 0-2 symbolic characters each (known and unknown ones), settings with or without ambiguous rules, symbolic productions, JSON of every compression level that asks for errors to be ignored or not; the same after one of 3 other commands on the source, which then said something else; dump: bundled and yaml_file, every level and the default, ambiguity flags; generate-tests (every source format) and test, with and without ambiguous rules: ambiguity flags",
        "thorough": "inputs of up to 3 characters, all flag combinations for all sources and numbers of inputs",
    },
    "outside": "inputs beginning with a hyphen (options, to the command line); terminal control sequences; encodings of files and terminal; the other commands (C30)",
    "stubs": "click parses the arguments natively, with placeholders for symbolic ones; click.echo records what is printed; yaml reader returns the settings; json: texts kept as structures; files are virtual",
}
BUDGET = {"quick": 90, "thorough": 2400}
PRELOAD = ["graphtransliterator", "graphtransliterator.cli", "graphtransliterator.transliterators"]
SOURCES = ["bundled", "json", "json_file", "yaml_file"]
CA = [([], False), (["--check-ambiguity"], True), (["-ca"], True),
      (["--no-check-ambiguity"], False), (["-nca"], False)]
IE = [([], False), (["--ignore-errors"], True), (["-ie"], True),
      (["--no-ignore-errors"], False), (["-nie"], False)]
TO = [([], "python"), (["--to", "json"], "json"), (["-t", "json"], "json"),
      (["--to", "python"], "python"), (["-t", "python"], "python")]


def jobs(tier):
    big = tier == "thorough"
    out = []
    for src in SOURCES:
        for amb in (0, 1):
            if src == "bundled" and amb:
                continue
            for ns in ([], [0], [1], [2], [1, 1], [0, 2], [1, 1, 1]) + (([2, 2], [3], [2, 2, 2], [3, 1]) if big else ()):
                out.append({"cmd": "transliterate", "src": src, "amb": amb, "ns": ns,
                            "flags": "all" if big or (ns == [1] and not amb) else "some",
                            "level": (len(out) + 2) % 3, "ign": len(out) // 3 % 2})
            if src[:4] == "json":
                for lv in range(3):
                    for ign in (0, 1):
                        out.append({"cmd": "transliterate", "src": src, "amb": amb, "ns": [1],
                                    "flags": "some", "level": lv, "ign": ign})
            # after another command
            for then in range(3):
                out.append({"cmd": "transliterate", "src": src, "amb": amb, "ns": [1], "flags": "some",
                            "level": then, "ign": 0, "after": then})
            if src in ("bundled", "yaml_file"):
                out.append({"cmd": "dump", "src": src, "amb": amb})
            out.append({"cmd": "generate-tests", "src": src, "amb": amb, "level": len(out) % 3})
    for amb in ({}, {"ambiguous": 1}):
        out.append(dict(amb, cmd="test", src="bundled"))
    return out


def conf(W, amb):
    rules = [{"production": W.string("out", 2), "tokens": ["a"]},
             {"production": "B", "tokens": ["b"]},
             {"production": "ab", "tokens": ["a", "b"], "prev_classes": ["x"]},
             {"production": "c", "tokens": ["a"], "prev_tokens": ["b"]}]
    if amb:
        rules.append({"production": "d", "tokens": ["a"], "next_classes": ["x"]})
    s = {"tokens": {"a": ["x"], "b": ["y", "x"], "_": ["w"]}, "rules": rules,
         "onmatch_rules": [{"prev_classes": ["x"], "next_classes": ["x"], "production": ","}],
         "whitespace": {"default": "_", "token_class": "w", "consolidate": False}}
    return s


def body(W, P):
    from graphtransliterator import GraphTransliterator
    import graphtransliterator.cli
    import graphtransliterator.transliterators as bundled

    src = P["src"]
    if P["cmd"] == "test":
        return tested(W, P)
    if src == "bundled":
        name = "Example"
        make = bundled.Example
        where = ["bundled", name]
    else:
        s = conf(W, P["amb"])
        if src == "yaml_file":
            W.on_yaml(lambda text: copied(easy(s)))
            path = W.virtual_file("conf.yaml", "settings: here\n")
            make = lambda **kw: GraphTransliterator.from_yaml_file(path, **kw)
            where = [src, path]
        else:
            text = GraphTransliterator.from_dict(s, check_ambiguity=False, ignore_errors=bool(P.get("ign"))).dumps(P["level"])
            make = lambda **kw: GraphTransliterator.loads(text, **kw)
            where = [src, text]
            if src == "json_file":
                where = [src, W.virtual_file("conf.json", text)]
    if P["cmd"] == "dump":
        return dump(W, make, where)
    if P["cmd"] == "generate-tests":
        return tests(W, make, where)
    some = P["flags"] == "some"
    ca, check = W.choose("ambiguity", CA[:2] if some else CA)
    ie, ign = W.choose("errors", IE[:2] if some else IE)
    to, form = W.choose("to", TO[:2] if some else TO)
    texts = [W.string("s%d" % k, n, "ab ?" if src == "bundled" else "ab_?")
             for k, n in enumerate(P["ns"])]
    order = sum(P["ns"]) % 2 if some else W.choose("order", 2)
    head = ["--from" if order else "-f"] + where
    opts = (to + ie + ca + head) if order else (head + ca + ie + to)
    args = ["transliterate"] + opts + texts
    if "after" in P:
        # the source may have said something else before
        k = P["after"]
        if src == "json_file" or src == "yaml_file":
            other = GraphTransliterator.from_dict(dict(s, rules=s["rules"][:2]))
            if src == "json_file":
                W.virtual_file("conf.json", other.dumps())
            else:
                W.on_yaml(lambda text: copied(easy(dict(s, rules=s["rules"][:2]))))
        W.cli([["transliterate", "-f"] + where + ["-ie", "ab", "b"],
               ["transliterate", "-f"] + where + ["-ca", "--to", "json", "a"],
               ["generate-tests", "-f"] + where][k])
        if src == "json_file":
            W.virtual_file("conf.json", text)
        elif src == "yaml_file":
            W.on_yaml(lambda text: copied(easy(s)))
    kind, printed = W.cli(args)
    lib, want = W.run(results, make, check, ign, texts)
    if lib == "exc":
        W.cover(want)
        W.check(kind == "exc", "the library raises an error, the command does not")
        return
    W.check(kind == "ok", "the command fails, the library does not")
    if kind != "ok":
        return
    W.cover("%s %s" % (src, form))
    W.observe(want)
    if form == "json":
        W.check(W.eq(W.printed_json(printed), want), "other JSON is printed")
    else:
        W.check(W.prints(printed, want), "something else is printed")


def results(make, check, ign, texts):
    gt = make(check_ambiguity=check, ignore_errors=ign)
    if len(texts) == 1:
        return gt.transliterate(texts[0])
    return [gt.transliterate(t) for t in texts]


def tests(W, make, where):
    import graphtransliterator.transliterators as bundled
    import yaml

    ca, check = W.choose("ambiguity", CA)
    kind, printed = W.cli(["generate-tests"] + ca + ["--from"] + where)
    lib, want = W.run(lambda: bundled.Bundled.generate_yaml_tests(make(check_ambiguity=check)))
    if lib == "exc":
        W.cover("generate-tests " + want)
        W.check(kind == "exc", "the library raises an error, the command does not")
        return
    W.check(kind == "ok", "the command fails, the library does not")
    if kind != "ok":
        return
    W.cover("generate-tests")
    W.check(W.eq(yaml.safe_load(W.printed_text(printed)), yaml.safe_load(want)), "other tests are printed")


def tested(W, P):
    from c30 import made

    cls = made(W, P, {"a": "A", "a1": W.string("target", 2, "A1")})
    ca, check = W.choose("ambiguity", CA)
    kind, printed = W.cli(["test"] + ca + ["Mine"])
    lib, want = W.run(lambda: cls(check_ambiguity=check).run_yaml_tests())
    W.cover("test " + lib)
    W.check(kind == lib, "the command fails, the library does not, or the other way round")
    if "ambiguous" in P and check:
        W.check(kind == "exc", "ambiguity is not checked")
    elif lib == "exc":
        W.check(want == "AssertionError", "ambiguity is checked without being asked for")
    W.check(kind == "exc" or W.prints(printed, want), "something else is printed")
    W.on_yaml(None)


def copied(x):
    if isinstance(x, dict):
        return {k: copied(v) for k, v in x.items()}
    if isinstance(x, list):
        return [copied(y) for y in x]
    return x


def dump(W, make, where):
    from graphtransliterator import GraphTransliterator

    ca, check = W.choose("ambiguity", CA)
    cl = W.choose("level", 7)
    level = [2, 0, 1, 2, 0, 1, 2][cl]
    opts = [] if not cl else [["--compression-level", "-cl"][cl // 4], str(level)]
    kind, printed = W.cli(["dump"] + ca + ["--from"] + where + opts)
    lib, gt = W.run(make, check_ambiguity=check)
    if lib == "exc":
        W.cover("dump " + gt)
        W.check(kind == "exc", "the library raises an error, the command does not")
        return
    W.check(kind == "ok", "the command fails, the library does not")
    if kind != "ok":
        return
    W.cover("dump %d" % level)
    d = W.printed_json(printed)
    W.check(("compressed_settings" in d) == (level > 0), "dumped at another level")
    if level:
        W.check((d["compressed_settings"][-1] is None) == (level == 2), "dumped at another level")
    kind, back = W.run(GraphTransliterator.loads, W.printed_text(printed))
    W.check(kind == "ok", "the dump cannot be loaded")
    if kind == "ok":
        for k, c in same_config(W, config(back), config(gt), ("metadata",)):
            W.check(c, "the dump differs: " + k)
        W.check(W.eq(back.metadata or {}, gt.metadata or {}), "the dump differs: metadata")
        W.observe(back.productions)
