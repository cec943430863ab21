from hlib import *

META = {
    "bounds": {
        "quick": "histories of up to 3 calls of add_node and add_edge on graphs started empty or from 2, 3 or 12 nodes with or without edges, head and tail symbolic integers from -2 to 5 (8 to 13 for 12 nodes) or non-integers (None, '0', 1.5, a list), data absent, empty, filled or not a dictionary (these variations in one of the calls); rebuilding from up to 3 edges with symbolic ends, with and without an edge list",
        "thorough": "histories of up to 4 calls, rebuilding from up to 4 edges",
    },
    "outside": "longer histories; removing nodes or edges (not offered); subclasses of int and dict as arguments; changing node, edge or edge_list directly",
    "stubs": "none",
}
BUDGET = {"quick": 90, "thorough": 2400}

STARTS = ["empty", "two", "three", "edges", "rebuilt"]
BAD = [None, "0", 1.5, [0], (0, 1)]


def jobs(tier):
    big = tier == "thorough"
    out = []
    for start in STARTS:
        for n in range(5 if big else 4):
            for ops in itertools.product("ne", repeat=n):
                if n > 2 and "n" == ops[-1]:
                    continue
                for probe in range(n or 1):
                    out.append({"start": start, "ops": "".join(ops), "probe": probe})
    for ops in ("", "n", "e", "ne", "en", "ee") + (("nee", "ene", "eee") if big else ()):
        for probe in range(len(ops) or 1):
            out.append({"start": "twelve", "ops": ops, "probe": probe})
    for n in range(1, 5 if big else 4):
        out.append({"rebuild": n})
        if n < 3:
            out.append({"rebuild": n, "wide": 1})
    return out


def start(W, kind):
    from graphtransliterator import DirectedGraph

    if kind == "empty":
        return DirectedGraph()
    if kind == "edges":
        return DirectedGraph(node=[{"a": 1}, {}, {}], edge={0: {1: {"k": 1}, 2: {}}})
    if kind == "rebuilt":
        return DirectedGraph(node=[{}, {}], edge={1: {0: {"k": 1}}}, edge_list=[(1, 0)])
    g = DirectedGraph()
    for k in range({"two": 2, "three": 3, "twelve": 12}[kind]):
        got = g.add_node()
        W.check(got[0] == k and got[1] == {} and got[1] is g.node[k], "add_node returns something else")
    if kind == "twelve":
        for k in range(11):
            g.add_edge(k, k + 1, {"n": k})
        g.add_edge(0, 11)
        g.add_edge(0, 10)
    return g


def snapshot(g):
    return (cp(g.node[:]), cp(g.edge), [tuple(e) for e in g.edge_list])


def consistent(W, g, model, nodes):
    """model: list of ((head, tail), data), in the order first added."""
    W.check(len(g.node) == len(nodes), "other number of nodes")
    for k in range(len(nodes)):
        W.check(W.eq(g.node[k], nodes[k]), "node data changed")
    pairs = [(h, t) for h in g.edge for t in g.edge[h]]
    W.check(len(pairs) == len(model), "other edges than were added")
    for (h, t), data in model:
        W.check(W.Or(*[W.And(W.eq(p[0], h), W.eq(p[1], t)) for p in pairs]), "an edge is missing")
        W.check(W.eq(g.edge[h][t], data), "edge data changed")
    for h, t in pairs:
        W.check(W.And(0 <= h, h < len(nodes), 0 <= t, t < len(nodes)), "an edge to a missing node")
    lst = [tuple(e) for e in g.edge_list]
    W.check(len(lst) == len(model), "the edge list has other edges")
    for (h, t), _ in model:
        W.check(W.Or(*[W.And(W.eq(p[0], h), W.eq(p[1], t)) for p in lst]),
                "an edge is missing from the edge list")


def body(W, P):
    if "rebuild" in P:
        return rebuild(W, P["rebuild"], 13 if "wide" in P else 4)
    g = start(W, P["start"])
    nodes, edge, lst = snapshot(g)
    model = [((h, t), edge[h][t]) for h in edge for t in edge[h]]
    consistent(W, g, model, nodes)
    for k, op in enumerate(P["ops"]):
        before = snapshot(g)
        if op == "n":
            d = W.choose("data%d" % k, 5 if k == P["probe"] else 2)
            if d == 0:
                r = W.run(g.add_node)
                data = {}
            else:
                data = [None, {}, {"token": "a", "n": [1]}, ("a", 1), "no"][d] if d > 1 else {}
                r = W.run(g.add_node, data)
            if d < 3:
                W.check(r[0] == "ok", "a node was refused")
                if r[0] != "ok":
                    return
                W.check(r[1][0] == len(nodes), "node keys are not consecutive")
                W.check(r[1][1] is g.node[r[1][0]], "other node data is returned")
                nodes.append(cp(data))
                W.cover("node")
            else:
                W.check(r == ("exc", "ValueError"), "invalid node data was not refused")
                W.check(W.eq(snapshot(g), before), "a refused node changed the graph")
                W.cover("refused node")
            consistent(W, g, model, nodes)
            continue
        b = W.choose("bad%d" % k, 2 + 2 * len(BAD)) if k == P["probe"] else 0
        lo, hi = (8, 13) if P["start"] == "twelve" else (-2, 5)
        h = W.int("head%d" % k, lo, hi)
        t = W.int("tail%d" % k, lo, hi)
        bad = False
        if b >= 2:
            bad = True
            if b % 2:
                h = BAD[(b - 2) // 2]
            else:
                t = BAD[(b - 2) // 2]
        d = W.choose("data%d" % k, 4) if b == 1 else 0
        data = [{}, {}, {"cost": 1, "token": "a"}, None][d]
        if d == 3:
            data = W.choose("nodata%d" % k, [[1], "no", 0, ("a", 1)])
            bad = True
        r = W.run(g.add_edge, h, t) if d == 0 else W.run(g.add_edge, h, t, data)
        good = not bad and W.And(0 <= h, h < len(nodes), 0 <= t, t < len(nodes))
        if r[0] == "ok":
            W.cover("edge")
            W.check(good, "an invalid edge was accepted")
            if bad:
                return
            W.check(r[1] is g.edge[h][t], "other edge data is returned")
            known = [n for n in range(len(model)) if model[n][0][0] == h and model[n][0][1] == t]
            if known:
                W.cover("again")
                model[known[0]] = ((h, t), cp(data))
            else:
                model.append(((h, t), cp(data)))
        else:
            W.cover("refused edge")
            W.check(W.Not(good), "a valid edge was refused")
            W.check(r[1] == "ValueError", "not a ValueError: %s" % r[1])
            W.check(W.eq(snapshot(g), before), "a refused edge changed the graph")
        consistent(W, g, model, nodes)
    W.observe([g.node, sorted([list(e) for e in g.edge_list])])
    # data given to one node or edge is not shared with another
    for x in range(len(model)):
        for y in range(x):
            (h, t), (i, j) = model[x][0], model[y][0]
            W.check(g.edge[h][t] is not g.edge[i][j], "two edges share their data")
    again(W, g, nodes)


def again(W, g, nodes):
    """A graph rebuilt from nodes and edges has the same edge list, sorted."""
    from graphtransliterator import DirectedGraph

    h = DirectedGraph(node=g.node, edge=g.edge)
    want = sorted([tuple(e) for e in g.edge_list])
    W.check(W.eq([tuple(e) for e in h.edge_list], want), "a rebuilt graph has another edge list")
    W.check(len(h.node) == len(nodes) and W.eq(h.edge, g.edge), "a rebuilt graph differs")
    h = DirectedGraph(node=g.node, edge=g.edge, edge_list=g.edge_list)
    W.check(W.eq([tuple(e) for e in h.edge_list], want),
            "a graph rebuilt with an edge list has another edge list")


def rebuild(W, n, size):
    from graphtransliterator import DirectedGraph

    node = [{} for _ in range(size)]
    edge = {}
    pairs = []
    for k in range(n):
        h, t = W.int("head%d" % k, 0 if size < 5 else 8, size - 1), W.int("tail%d" % k, 0, 3)
        W.assume(W.Not(W.Or(*[W.And(W.eq(h, a), W.eq(t, b)) for a, b in pairs])))
        pairs.append((h, t))
        if h not in edge:
            edge[h] = {}
        edge[h][t] = {"n": k}
    how = W.choose("list", 3)
    g = DirectedGraph(node=node, edge=edge, edge_list=[None, list(pairs), list(reversed(pairs))][how])
    W.cover("rebuilt")
    W.observe([list(e) for e in g.edge_list])
    model = [(pairs[k], {"n": k}) for k in range(n)]
    consistent(W, g, model, node)
    lst = [tuple(e) for e in g.edge_list]
    for a, b in zip(lst, lst[1:]):
        W.check(W.Or(a[0] < b[0], W.And(W.eq(a[0], b[0]), a[1] < b[1])), "the edge list is not sorted")
    key, data = g.add_node()
    W.check(key == size, "node keys are not consecutive")
    g.add_edge(pairs[0][0], key)
    model.append(((pairs[0][0], key), {}))
    consistent(W, g, model, node)
