from hlib import *

META = {
    "bounds": {
        "quick": "a feature-complete configuration (contexts, on-match rules, consolidation on or off, errors ignored or not) and ones with a symbolic rule, plain and coverage tracking; two overlapping transliterations with inputs of <=2 symbolic characters each: the first is preempted at any (symbolic) one of the places where it, or what it calls, reads or writes an attribute of the object or calls a method of it, public or private; the second runs to its end, the first goes on",
        "thorough": "inputs of <=3 characters; three overlapping transliterations (nested)",
    },
    "outside": "preemption between other bytecodes, e.g. within the library's helper functions or the graph; more than one preemption per call; last_input_tokens and last_matched_rules, which are those of one of the calls; changing settings during a call",
    "stubs": "threads are replaced by a subclass whose attribute accesses run the other call at the chosen step; re: backtracking matcher; logging is a no-op",
}
BUDGET = {"quick": 90, "thorough": 2400}
OTHER = ["translit", "tokenize", "match", "dump", "prune"]


def jobs(tier):
    big = tier == "thorough"
    out = []
    for cov, cons in itertools.product((0, 1), repeat=2) if big else ((0, 0), (1, 1)):
        if 1:
            for m, n in ((1, 1), (2, 1), (1, 2)) + (((2, 2), (3, 1), (3, 2)) if big else ()):
                out.append({"cov": cov, "cons": cons, "ns": [m, n], "op": "translit"})
            for op in OTHER[1:]:
                out.append({"cov": cov, "cons": cons, "ns": [2 if big or op == "tokenize" else 1, 1], "op": op})
    for sh in shapes(3 if big else 2):
        out.append({"cov": 0, "cons": 0, "ns": [2, 1], "op": "translit", "shape": list(sh)})
    out.append({"cov": 0, "cons": 0, "ns": [2, 2], "op": "translit", "pre": 1})
    out.append({"cov": 0, "cons": 0, "ns": [1, 1], "op": "translit", "many": 1})
    for n in range(3):
        out.append({"cov": 0, "cons": 0, "ns": [0, 2 if big else 1], "op": "translit", "context": n})
    if big:
        out.append({"cov": 0, "cons": 0, "ns": [2, 1, 1], "op": "translit"})
    return [dict(j, big=1) for j in out] if big else out


def contexts():
    """Rules with contexts of all kinds, of different lengths, and onmatch rules."""
    return {"tokens": {"a": ["x"], "b": [], "c": ["y"], " ": ["w"]}, "rules": [
        {"production": "A", "tokens": ["a"]}, {"production": "B", "tokens": ["b"]},
        {"production": "C", "tokens": ["c"]}, {"production": "_", "tokens": [" "]},
        {"production": "1", "tokens": ["a", "b"], "next_classes": ["y"]},
        {"production": "2", "tokens": ["b", "a"], "prev_classes": ["x"], "next_tokens": ["b"]},
        {"production": "3", "tokens": ["a"], "prev_tokens": ["b", "c"], "next_tokens": ["c"], "next_classes": ["y"]},
        {"production": "4", "tokens": ["b", "c"], "prev_classes": ["y"], "prev_tokens": ["b"]}],
        "onmatch_rules": [{"prev_classes": ["y", "x"], "next_classes": ["y"], "production": ","},
                          {"prev_classes": ["x"], "next_classes": ["y"], "production": ";"}],
        "whitespace": {"default": " ", "token_class": "w", "consolidate": False}}


OWN = ("pause", "pauses", "steps")


def interruptible(cls):
    from graphtransliterator import GraphTransliterator

    class Interrupted(cls):
        pauses = ()
        steps = 0

        def pause(self):
            self.steps += 1
            if self.pauses and self.steps == self.pauses[0][0]:
                f = self.pauses[0][1]
                self.pauses = self.pauses[1:]
                self.steps = 0
                f()
                self.steps = 10 ** 6

        def __getattribute__(self, name):
            if name not in OWN and not name.startswith("__"):
                self.pause()
            return super().__getattribute__(name)

        def __setattr__(self, name, value):
            super().__setattr__(name, value)
            if name not in OWN:
                self.pause()

    return Interrupted


def body(W, P):
    from graphtransliterator import CoverageTransliterator, GraphTransliterator

    s = fixed(P)
    if "shape" in P:
        s["rules"][2] = ruledict(symrule(W, "r", tuple(P["shape"]), "ab", "xyw"), "R")
    if "context" in P:
        s = contexts()
    s["whitespace"]["consolidate"] = bool(P["cons"])
    ign = W.flag("ignore")
    cls = CoverageTransliterator if P["cov"] else GraphTransliterator
    gt = direct(s, cls=interruptible(cls), ignore_errors=ign)
    alone = direct(s, cls=cls, ignore_errors=ign)
    texts = [W.string("s%d" % k, n, "ab" if "shape" in P or "pre" in P else "ab?" if sum(P["ns"]) > 2 and not P.get("big") else "ab ?") for k, n in enumerate(P["ns"])]
    if "context" in P:
        texts[0] = ["ababc cac", "bcacccbbc", "cacabcbab"][P["context"]]
    if "pre" in P:
        W.run(gt.transliterate, "aab")
    gt.steps = 0
    want = [W.run(alone.transliterate, t) for t in texts]
    got = [None] * len(texts)

    def other(k):
        def f():
            op = P["op"]
            if op == "translit":
                got[k] = W.run(gt.transliterate, texts[k])
            elif op == "tokenize":
                W.run(gt.tokenize, texts[k])
            elif op == "match":
                W.run(gt.match_at, 1, [" ", "b", "a", " "])
                W.run(gt.match_at, 1, [" ", "b", "a", " "], match_all=True)
            elif op == "dump":
                W.run(gt.dumps, compression_level=W.choose("level", 3))
            elif op == "prune":
                W.run(gt.pruned_of, "B")
        return f

    W.run(gt.transliterate, texts[0])
    total, gt.steps = gt.steps, 0
    gt.pauses = tuple([(W.choose("step%d" % k, range(1, total + 1)), other(k)) for k in range(1, len(texts))])
    got[0] = W.run(gt.transliterate, texts[0])
    W.observe([list(g) if g else None for g in got])
    W.check(W.eq(list(got[0]), list(want[0])), "an interrupted transliteration gives something else")
    W.cover("interrupted" if not gt.pauses else "alone")
    for k in range(1, len(texts)):
        if got[k] is not None:
            W.check(W.eq(list(got[k]), list(want[k])), "the interrupting transliteration gives something else")
    got = W.run(gt.transliterate, texts[-1])
    W.check(W.eq(list(got), list(want[-1])), "a later transliteration gives something else")
