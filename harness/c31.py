from hlib import *
from c25 import easy

META = {
    "bounds": {
        "quick": "a package with four bundled transliterators (names that are prefixes, suffixes and extensions of one another, JSON files that are outdated or missing, YAML settings with symbolic productions); make-json with every argument of 1-3 characters over the letters of the names and the metacharacters '.*$^|[', as a name or, in either spelling of the option, as a regular expression, also after all were made or used with other settings; list-bundled",
        "thorough": "arguments of up to 4 characters",
    },
    "outside": "arguments beginning with a hyphen; files that cannot be written; the wording of messages",
    "stubs": "yaml reader returns the settings; files are virtual; click as in C26; re: backtracking matcher, also for symbolic patterns",
}
BUDGET = {"quick": 90, "thorough": 2400}
PRELOAD = ["graphtransliterator", "graphtransliterator.cli", "graphtransliterator.transliterators"]
NAMES = ["Ab", "A", "bAb", "Abb"]
CHARS = "Ab.*$^|["


def jobs(tier):
    out = [{"list": 1}]
    for n in (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3):
        for flag in (0, 1, 2):
            for c in CHARS if n > 2 else [""]:
                if n == 3 and flag == 2:
                    continue
                out.append({"n": n - len(c), "regex": flag, "pre": c})
    for flag in (0, 1):
        for k in range(3):
            out.append({"n": 1 + flag, "regex": flag, "pre": "", "before": k})
    return out


def conf(name, out):
    return {"tokens": {"a": ["x"], "b": ["y"], "_": ["w"]},
            "rules": [{"production": name, "tokens": ["a"]}, {"production": out, "tokens": ["b"], "next_classes": ["x"]}],
            "onmatch_rules": [{"prev_classes": ["x"], "next_classes": ["x"], "production": ","}],
            "whitespace": {"default": "_", "token_class": "w", "consolidate": True},
            "metadata": {"name": name}}


def package(W, confs):
    import os
    import graphtransliterator.transliterators as bundled

    where = {}
    for name in NAMES:
        where[name] = os.path.dirname(W.virtual_file(name + "/" + name + ".yaml", "settings: %s\n" % name))
        if name != "Abb":
            W.virtual_file(name + "/" + name + ".json", "outdated" * 500)

    def cls(name):
        class Mine(bundled.Bundled):
            def _module_dir(self):
                return where[name]

            def _module_name(self):
                return name

            def __init__(self, **kw):
                self.from_YAML(**kw)

        return Mine

    bundled._transliterators[:] = NAMES
    for name in NAMES:
        setattr(bundled, name, cls(name))

    def read(f):
        text = f if isinstance(f, str) else f.read()
        return easy(confs[text[len("settings: "):-1]])

    W.on_yaml(read)
    return {name: where[name] + "/" + name + ".json" for name in NAMES}


def body(W, P):
    import graphtransliterator.cli
    import graphtransliterator.transliterators as bundled

    old = list(bundled._transliterators)
    try:
        scene(W, P)
    finally:
        bundled._transliterators[:] = old
        for name in NAMES:
            if hasattr(bundled, name):
                delattr(bundled, name)
        W.on_yaml(None)


def scene(W, P):
    import re
    from graphtransliterator import GraphTransliterator
    import graphtransliterator.transliterators as bundled

    out = W.string("out", 1)
    confs = {name: conf(name, out) for name in NAMES}
    files = package(W, confs)
    before = {name: W.read_file(files[name]) for name in NAMES}
    if "list" in P:
        kind, printed = W.cli(["list-bundled"])
        W.check(kind == "ok", "cannot be listed")
        words = W.printed_text(printed).replace(":", " ").split()
        for name in NAMES:
            W.check(words.count(name) == 1, "not listed once")
        W.cover("list")
        return
    if "before" in P:
        # other settings were read, and written, before
        for name in NAMES:
            confs[name] = conf(name, "!")
            confs[name]["rules"].append({"production": "!!", "tokens": ["b", "b"]})
        if P["before"] == 0:
            W.cli(["make-json", "A"])
        elif P["before"] == 1:
            W.cli(["make-json", "-re", ".*"])
        else:
            for name in NAMES:
                getattr(bundled, name).new(method="yaml", ignore_errors=True).transliterate("a")
        for name in NAMES:
            confs[name] = conf(name, out)
        before = {name: W.read_file(files[name]) for name in NAMES}
    arg = P["pre"] + W.string("arg", P["n"], CHARS)
    opts = [[], ["--regex"], ["-re"]][P["regex"]]
    kind, printed = W.cli(["make-json"] + opts + [arg] if len(arg) % 2 else ["make-json", arg] + opts)
    want = set()
    valid = True
    for name in NAMES:
        if P["regex"]:
            k, m = W.run(re.match, arg, name)
            if k == "exc":
                valid = False
            elif m:
                want.add(name)
        elif arg == name:
            want.add(name)
    W.check(not valid or kind == "ok", "fails")
    W.observe([kind if valid else "invalid", sorted(want) if valid else None])
    W.cover("%s %d" % ("valid" if valid else "invalid", len(want) if valid else 0))
    for name in NAMES:
        text = W.read_file(files[name])
        if not valid or name not in want:
            W.check(text is None if before[name] is None else W.eq(text, before[name]),
                    "another file is written")
            continue
        W.check(text is not None and text is not before[name], "no file is written")
        if text is None or text is before[name]:
            return
        kind, gt = W.run(GraphTransliterator.loads, text)
        W.check(kind == "ok", "the file written cannot be loaded")
        if kind != "ok":
            return
        ref = GraphTransliterator.from_dict(confs[name])
        for part, ok in same_config(W, config(gt), config(ref)):
            W.check(ok, "the file differs from the settings: " + part)
