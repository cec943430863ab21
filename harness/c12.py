from hlib import *
from c11 import conf_jobs

META = {
    "bounds": {
        "quick": "the settings of C11 (names of arbitrary characters; 1 rule needing <=3 tokens or 2 needing <=2, symbolic rule tokens/classes/productions, 0-2 on-match rules, variants of token classes, absent/empty/null parts, metadata, consolidation, ignore_errors, rules needing 1-24 tokens), after any other use of the transliterator and a change of ignore_errors, compression levels 1 and 2, as data and as JSON text, once and twice in a row; settings and graph compared in full; every input of <=2 characters transliterated by both; every integer level in -40..40 for the refusal",
        "thorough": "2 rules needing <=3, 3 rules needing <=2; inputs of <=3 characters",
    },
    "outside": "bigger settings; rules with costs given explicitly (the compressed format stores the number of tokens); the JSON text encoding itself, checked concretely on the validated paths",
    "stubs": "json: texts kept as structures; re: backtracking matcher; logging is a no-op; marshmallow runs as is, instrumented",
}
BUDGET = {"quick": 90, "thorough": 2400}


def jobs(tier):
    big = tier == "thorough"
    out = [{"refuse": r} for r in ("dump", "dumps")]
    for k, c in enumerate(conf_jobs(tier)):
        for j, (lvl, r) in enumerate(itertools.product((1, 2), ("data", "text"))):
            # the bulk of shapes once per level, alternating the route
            if big or "names" in c or "needs" in c or "vary" in c or "om" in c or (k + j) % 2:
                out.append(dict(c, route=r, level=lvl))
    for lvl in (1, 2):
        for r in ("data", "text"):
            out.append({"fixed": 1, "level": lvl, "route": r, "n": 3 if big else 2})
            out.append({"fixed": 1, "level": lvl, "route": r, "again": 3 - lvl})
            out.append({"fixed": 1, "level": lvl, "route": r, "n": 1, "flip": 1})
            out.append({"fixed": 1, "level": lvl, "route": r, "n": 1 + (r == "text"), "many": 1})
    return out


def roundtrip(W, gt, level, route):
    from graphtransliterator import GraphTransliterator

    if route == "data":
        return W.run(GraphTransliterator.load, gt.dump(compression_level=level))
    return W.run(GraphTransliterator.loads, gt.dumps(compression_level=level))


def body(W, P):
    from graphtransliterator import GraphTransliterator

    if "refuse" in P:
        gt = direct(settings())
        n = W.int("level", -40, 40)
        k, r = W.run(getattr(gt, P["refuse"]), compression_level=n)
        W.observe([k, r if k == "exc" else None])
        if k == "exc":
            W.check(r == "ValueError", "other exception")
        W.check(W.Iff(k == "ok", W.And(0 <= n, n <= 2)), "accepted levels")
        return
    ign = W.flag("ignore")
    s = fixed(P) if "fixed" in P else symsettings(W, P)
    gt = GraphTransliterator.from_dict(s, ignore_errors=ign, check_ambiguity=False)
    if "flip" in P:
        used(W, gt)
    before = config(gt)
    kind, gt2 = roundtrip(W, gt, P["level"], P["route"])
    W.check(kind == "ok", "the dump cannot be loaded")
    if kind != "ok":
        return
    if "again" in P:
        kind, gt2 = roundtrip(W, gt2, P["again"], P["route"])
        W.check(kind == "ok", "the second dump cannot be loaded")
        if kind != "ok":
            return
    W.cover("%s %s" % (P["route"], P["level"]))
    after = config(gt2)
    for k, c in same_config(W, after, before, ("metadata",)):
        W.check(c, "loaded transliterator differs: " + k)
    W.check(W.Or(W.eq(after["metadata"], before["metadata"]),
                 W.And(not after["metadata"], not before["metadata"])), "metadata differs")
    for k, c in same_config(W, config(gt), before):
        W.check(c, "dumping changed the transliterator: " + k)
    W.observe(gt2.productions)
    if "n" in P:
        t = fixed_text(W, P, "s", P["n"])
        r1, r2 = W.run(gt.transliterate, t), W.run(gt2.transliterate, t)
        W.observe(list(r1))
        W.check(W.eq(list(r1), list(r2)), "transliterates differently")
