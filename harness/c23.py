from hlib import *

META = {
    "bounds": {
        "quick": "graphs of 1 rule needing <=5 tokens, all pairs of rules needing <=3, all triples of context-free rules of <=2 tokens, 4 rules of 1-2 tokens, and pairs and triples with given costs (5 values, also 1 and more); rule tokens symbolic over 3 tokens, classes over 2; built by from_dict, and pairs and triples (with automatic or given costs) in any order by the constructor; a configuration with 42 rules and 63 nodes, in 3 orders, with one token symbolic, on both routes",
        "thorough": "triples needing <=3, pairs needing <=4, 5 rules",
    },
    "outside": "more rules; a token named '__rules__'",
    "stubs": "re: backtracking matcher; logging is a no-op; marshmallow runs instrumented",
}
BUDGET = {"quick": 90, "thorough": 2400}
COSTS = [0.2, 0.5, 1.0, 1.5, 7.0]


def jobs(tier):
    big = tier == "thorough"
    out = [{"shapes": []}, {"many": 1}, {"many": 1, "direct": 1}]
    for s in shapes(6 if big else 5, max_tok=4):
        out.append({"shapes": [s]})
    for a, b in itertools.combinations_with_replacement(shapes(4 if big else 3), 2):
        out.append({"shapes": [a, b]})
    for t in itertools.combinations_with_replacement(shapes(3 if big else 2, ctx=big), 3):
        out.append({"shapes": list(t)})
    one, two = (0, 0, 1, 0, 0), (0, 0, 2, 0, 0)
    three, ctx = (0, 0, 3, 0, 0), (1, 0, 1, 0, 0)
    out += [{"shapes": [two, two, one, ctx], "tokens": "ab"},
            {"shapes": [two, one, one, ctx], "tokens": "ab"},
            {"shapes": [three, two, two, one], "tokens": "ab"},
            {"shapes": [one, one, ctx, ctx], "tokens": "ab"}]
    for t in itertools.product([one, two, ctx], repeat=2):
        out.append({"shapes": list(t), "costs": 1})
    out.append({"shapes": [two, one, ctx], "costs": 1, "tokens": "ab"})
    out.append({"shapes": [two, two, one], "costs": 1, "tokens": "ab"})
    # in any order, straight to the constructor
    for t in itertools.product([one, two, ctx], repeat=2):
        out.append({"shapes": list(t), "direct": 1})
        out.append({"shapes": list(t), "direct": 1, "costs": 1})
    for t in itertools.product([one, two, ctx] if big else [one, two], repeat=3):
        out.append({"shapes": list(t), "direct": 1, "tokens": "ab"})
    out.append({"shapes": [two, ctx, one], "costs": 1, "direct": 1, "tokens": "ab"})
    out.append({"shapes": [one, two, two], "costs": 1, "direct": 1, "tokens": "ab"})
    if big:
        out.append({"shapes": [two, two, two, one, one], "tokens": "ab"})
        out.append({"shapes": [three, three, two, two, one], "tokens": "ab"})
    return out


def body(W, P):
    from graphtransliterator import GraphTransliterator, WhitespaceRules

    rules = []
    if "many" in P:
        P = dict(P, shapes=[])
    for k, sh in enumerate(P["shapes"]):
        r = symrule(W, "r%d" % k, tuple(sh), P.get("tokens", "ab "), "xw")
        if "direct" in P:
            r = ruleobj(r, "P%d" % k)
            if "costs" in P:
                r = r._replace(cost=W.choose("cost%d" % k, COSTS))
            rules.append(r)
            continue
        d = ruledict(r, "P%d" % k)
        if "costs" in P:
            d["cost"] = W.choose("cost%d" % k, COSTS)
        rules.append(d)
    s = {"tokens": {"a": ["x"], "b": [], " ": ["w"]}, "rules": rules,
         "whitespace": {"default": " ", "token_class": "w", "consolidate": False}}
    if "many" in P:
        k = W.choose("order", [0, 5, 25])
        s = fixed(P)
        s["rules"] = s["rules"][k:] + s["rules"][:k]
        # one of the tokens of the longest rule is another
        longest = [r for r in s["rules"] if len(r["tokens"]) == 3 and "prev_tokens" in r][0]
        longest["tokens"] = ["k", W.char("token", "dek"), "m"]
        rules = s["rules"]
        if "direct" in P:
            rules = [ruleobj({p: r.get(p) or [] for p in PARTS}, r["production"]) for r in rules]
            s["tokens"] = {t: set(c) for t, c in s["tokens"].items()}
            gt = GraphTransliterator(s["tokens"], rules, WhitespaceRules(**s["whitespace"]), check_ambiguity=False)
        else:
            gt = GraphTransliterator.from_dict(s, check_ambiguity=False)
    elif "direct" in P:
        gt = GraphTransliterator(
            {k: set(v) for k, v in s["tokens"].items()}, rules,
            WhitespaceRules(**s["whitespace"]), check_ambiguity=False)
    else:
        gt = GraphTransliterator.from_dict(s, check_ambiguity=False)
    g = gt.graph
    node, edge = list(g.node), g.edge
    n = len(node)
    W.observe([n, sorted([list(e) for e in g.edge_list])])
    pairs = [(h, t) for h in edge for t in edge[h]]
    W.check(sorted(pairs) == sorted([tuple(e) for e in g.edge_list]), "edge list and edges differ")
    parents = {}
    kids = {}
    for h, t in pairs:
        W.check(0 <= h < n and 0 < t < n, "an edge leaves the graph or enters the start")
        parents.setdefault(t, []).append(h)
        kids.setdefault(h, []).append(t)
    W.check(n > 0 and node[0].get("type") == "Start", "no start node")
    for k in range(1, n):
        W.check(len(parents.get(k, [])) == 1, "a node without exactly one parent")
    # a tree: everything is reached from the start
    order = [0]
    path = {0: []}
    for u in order:
        for v in kids.get(u, []):
            if v in path:
                W.check(False, "not a tree")
                return
            order.append(v)
            path[v] = path[u] + ([] if node[v].get("accepting") else [node[v]["token"]])
    W.check(len(order) == n, "a node is not reached from the start")
    got = gt.rules
    W.check(len(got) == len(rules), "rules were lost")
    best = {}  # lowest cost below each node
    for u in reversed(order):
        costs = [best[v] for v in kids.get(u, []) if v in best]
        if node[u].get("accepting"):
            costs.append(got[node[u]["rule_key"]].cost)
        if costs:
            best[u] = min(costs)
        elif u:
            W.check(False, "a branch without a rule")
            return
    leaves = {}
    for u in order:
        if node[u].get("accepting"):
            W.cover("leaf")
            key = node[u]["rule_key"]
            W.check(key not in leaves, "a rule with two leaves")
            leaves[key] = u
            r = got[key]
            W.check(W.eq(path[u], list(r.tokens)), "a path that does not spell the rule")
            W.check(not kids.get(u), "a leaf with children")
            c = edge[parents[u][0]][u].get("constraints") or {}
            for p in PARTS:
                if p != "tokens":
                    W.check(W.eq(list(c.get(p) or []), list(getattr(r, p) or [])), "other constraints")
        ts = [v for v in kids.get(u, []) if not node[v].get("accepting")]
        ls = [v for v in kids.get(u, []) if node[v].get("accepting")]
        for v, w in itertools.combinations(ts, 2):
            W.check(W.Not(W.eq(node[v]["token"], node[w]["token"])), "equal prefixes do not share a node")
        for v in ts + ls:
            W.check(edge[u][v].get("cost") == best[v], "an edge does not cost as much as the cheapest rule below")
        for v in ts:
            W.check(W.eq(edge[u][v].get("token", node[v]["token"]), node[v]["token"]), "edge and node differ in token")
        ch = node[u].get("ordered_children") or {}
        W.check(len(ch) == len(ts) + (1 if ls else 0), "children of other tokens")
        for v in ts:
            found = [x for x in ch if x == node[v]["token"]]
            W.check(len(found) == 1, "a token child is not listed")
            for x in found:
                listed(W, edge[u], ch[x], [v] + ls)
        if ls:
            listed(W, edge[u], ch.get("__rules__") or [], ls)
    W.check(len(leaves) == len(rules), "a rule without a leaf")


def listed(W, edges, xs, want):
    W.check(sorted(xs) == sorted(want), "other children are listed")
    for p, q in zip(xs, xs[1:]):
        W.check(edges[p]["cost"] <= edges[q]["cost"], "children are not in order of cost")
