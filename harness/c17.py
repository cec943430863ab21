from hlib import *

META = {
    "bounds": {
        "quick": "(form) 1-3 previous and 1-3 next classes, names symbolic over all Unicode scalar values except blanks, plus signs and angle brackets, of 1-2 characters (pairwise different if there are more than 4), 0-2 blanks before and after the plus sign, arbitrary 1-character productions; lists of 2-3 on-match rules with symbolic classes over 2; (refusal) every key of <=8 characters over '<', '>', '+', 'a', ' '",
        "thorough": "keys of <=11 characters; names of 1-3 characters",
    },
    "outside": "longer names and keys; several keys in one list entry (C37)",
    "stubs": "re: backtracking matcher; logging is a no-op; marshmallow runs instrumented",
    "assumptions": ["a blank in a name is any character matched by \\s"],
}
BUDGET = {"quick": 90, "thorough": 2400}
from c16 import FORBIDDEN

BAD = "".join(c for c in FORBIDDEN if c not in "()") + "+"
WS = {"default": " ", "token_class": "w", "consolidate": False}


def jobs(tier):
    big = tier == "thorough"
    out = []
    for m, n in itertools.product((1, 2, 3), (1, 2, 3)):
        for ln in (1, 2, 3) if big else (1, 2):
            if m + n > 4 and ln > 1 and not big:
                continue
            out.append({"m": m, "n": n, "len": ln})
    for k in (2, 3):
        out.append({"list": k})
    for n in range(12 if big else 9):
        out.append({"key": n})
    return out


def parse(W, key):
    """The classes of a key of the documented form, and whether it is strictly
    of that form (single blanks between classes, none at the ends); else None."""
    sides = [[], []]
    side = 0
    strict = True
    i = 0
    n = len(key)
    while i < n:
        c = key[i]
        if c == " ":
            i += 1
        elif c == "+":
            if side == 1 or not sides[0]:
                return None, False
            side = 1
            i += 1
        elif c == "<":
            j = i + 1
            while j < n and key[j] == "a":
                j += 1
            if j == n or j == i + 1 or key[j] != ">":
                return None, False
            sides[side].append(key[i + 1:j])
            i = j + 1
        else:
            return None, False
    if not sides[1]:
        return None, False
    strict = "".join(" " + "<" + c + ">" for c in sides[0]) + "+" + "".join(" <" + c + ">" for c in sides[1])
    a, b = key.split("+")
    strict = W.And(
        W.eq(a.rstrip(" "), " ".join("<" + c + ">" for c in sides[0])),
        W.eq(b.lstrip(" "), " ".join("<" + c + ">" for c in sides[1])))
    return sides, strict


def name(W, n, ln, taken):
    s = W.string(n, ln)
    for c in s:
        for f in BAD:
            W.assume(W.Not(W.eq(c, f)))
    for t in taken:
        W.assume(W.Not(W.eq(s, t)))
    return s


def load(W, classes, onmatch):
    from graphtransliterator import GraphTransliterator

    return W.run(GraphTransliterator.from_easyreading_dict, {
        "tokens": {"t": classes, " ": ["w"]}, "rules": {"t": "T"},
        "onmatch_rules": onmatch, "whitespace": WS})


def body(W, P):
    if "key" in P:
        key = W.string("key", P["key"], "<>+a ")
        kind, gt = load(W, ["a", "aa", "w"], [{key: "!"}])
        sides, strict = parse(W, key)
        W.observe([kind, gt if kind == "exc" else None])
        if kind == "exc":
            W.cover("refused")
            W.check(gt == "ValidationError", "not a validation error")
            if sides is not None and not any(len(c) > 2 for c in sides[0] + sides[1]):
                W.check(W.Not(strict), "the documented form is refused")
        else:
            W.cover("accepted")
            W.check(sides is not None, "a key of another form is accepted")
            if sides is not None:
                got = gt.onmatch_rules[0]
                W.check(W.And(W.eq(list(got.prev_classes), sides[0]),
                              W.eq(list(got.next_classes), sides[1])), "other classes")
        return
    if "list" in P:
        want = []
        rules = []
        for k in range(P["list"]):
            p, n = W.char("p%d" % k, "xy"), W.char("n%d" % k, "xy")
            out = W.string("out%d" % k, 1)
            rules.append({"<" + p + "> + <" + n + ">": out})
            want.append([[p], [n], out])
        kind, gt = load(W, ["x", "y"], rules)
        W.check(kind == "ok", "refused")
        if kind == "ok":
            W.cover("list")
            W.check(W.eq([[list(o.prev_classes), list(o.next_classes), o.production]
                          for o in gt.onmatch_rules], want), "other rules or another order")
        return
    prev, nxt = [], []
    for xs, p, n in ((prev, "p", P["m"]), (nxt, "n", P["n"])):
        for k in range(n):
            xs.append(name(W, p + str(k), P["len"], prev + nxt if P["m"] + P["n"] > 4 else []))
    b, a = W.choose("before", 3), W.choose("after", 3)
    out = W.string("out", 1)
    key = " ".join("<" + c + ">" for c in prev) + " " * b + "+" + " " * a + " ".join("<" + c + ">" for c in nxt)
    kind, gt = load(W, prev + nxt + ["w"], [{key: out}])
    W.check(kind == "ok", "the documented form is refused")
    if kind != "ok":
        return
    W.cover("form")
    W.check(len(gt.onmatch_rules) == 1, "not one on-match rule")
    got = gt.onmatch_rules[0]
    W.observe([list(got.prev_classes), list(got.next_classes), got.production])
    W.check(W.And(W.eq(list(got.prev_classes), prev), W.eq(list(got.next_classes), nxt)), "other classes")
    W.check(W.eq(got.production, out), "another production")
