from hlib import *
from c11 import conf_jobs
from c25 import easy

META = {
    "bounds": {
        "quick": "the settings of C11 (1 rule needing <=3 tokens or 2 needing <=2, 0-2 on-match rules, variants of token classes, absent/empty/null parts, consolidation, metadata; names and productions symbolic), rules needing 1-24 tokens, a configuration with names of 1-2 arbitrary characters (that its notation can express) and a feature-complete configuration; built from settings in dictionary form, in easy-reading form, from YAML text and from a YAML file, each compared in full with the one the constructor builds from the documented meaning of the settings, a configuration with 42 rules, and applied to every input of <=2 characters; parts may be given as tuples of names to the constructor",
        "thorough": "2 rules needing <=3, 3 rules needing <=2",
    },
    "outside": "settings given in YAML's own notation (the YAML library is trusted); names that the easy-reading notation cannot express (C16)",
    "stubs": "yaml reader returns the settings; files are virtual; re: backtracking matcher; logging is a no-op; marshmallow runs as is, instrumented",
}
BUDGET = {"quick": 90, "thorough": 2400}
ROUTES = ["dict", "easy", "yaml", "file"]


def jobs(tier):
    out = []
    for k, c in enumerate(conf_jobs(tier)):
        for j, r in enumerate(ROUTES):
            if tier == "thorough" or "names" in c or "needs" in c or (k + j) % 4 < 2:
                out.append(dict(c, route=r, n=1))
    for r in ROUTES:
        for n in (1, 2, 3) if tier == "thorough" else (1, 2):
            out.append({"fixed": 1, "route": r, "n": n})
        out.append({"fixed": 1, "route": r, "n": 1, "many": 1})
        out.append({"fixed": 1, "route": r, "n": 0, "many": 1, "long": 1})
    return out


def clean(s):
    """Absent, null and empty mean the same for the parts of a rule."""
    out = dict(s)
    out["rules"] = [{p: v for p, v in r.items() if v is not None} for r in s["rules"]]
    return out


def body(W, P):
    from graphtransliterator import GraphTransliterator

    route = P["route"]
    s = fixed(P) if "fixed" in P else symsettings(W, P)
    if route != "dict":
        if "names" in P:
            # (names the notation can express)
            for x in list(s["whitespace"].values())[:2]:
                for c in x:
                    W.assume(W.Not(W.Or(c.isspace(), W.isin(c, list("()<>+")))))
        if "fixed" in P:
            # (blanks cannot be written)
            s["rules"] = [r for r in s["rules"]
                          if " " not in r["tokens"] and " " not in r.get("next_tokens", [])]
        for r in s["rules"]:
            for p in ("prev_tokens", "tokens", "next_tokens"):
                for x in r.get(p) or []:
                    W.assume(W.Not(W.eq(x, " ")))
    given = s if route == "dict" else easy(s)
    if route != "dict" and len(given["rules"]) < len(s["rules"]):
        return  # one key for two rules
    kw = {"check_ambiguity": False, "ignore_errors": W.flag("ignore")}
    if route == "dict":
        kind, gt = W.run(GraphTransliterator.from_dict, given, **kw)
    elif route == "easy":
        kind, gt = W.run(GraphTransliterator.from_easyreading_dict, given, **kw)
    else:
        W.on_yaml(lambda text: given)
        if route == "yaml":
            kind, gt = W.run(GraphTransliterator.from_yaml, "settings: here\n", **kw)
        else:
            kind, gt = W.run(GraphTransliterator.from_yaml_file,
                             W.virtual_file("conf.yaml", "settings: here\n"), **kw)
        W.on_yaml(None)
    W.check(kind == "ok", "cannot be constructed")
    if kind != "ok":
        return
    W.cover(route)
    ref = direct(clean(s), **kw)
    for part, ok in same_config(W, config(gt), config(ref), ("metadata",)):
        W.check(ok, "differs from what the settings mean: " + part)
    W.check(W.eq(gt.metadata or {}, s.get("metadata") or {}), "other metadata")
    W.check(W.eq(gt.tokenizer_pattern, ref.tokenizer_pattern), "another tokenizer pattern")
    t = fixed_text(W, P, "s", P["n"], "ab ?")
    r1, r2 = W.run(gt.transliterate, t), W.run(ref.transliterate, t)
    W.observe(list(r1))
    W.check(W.eq(list(r1), list(r2)), "transliterates differently")
