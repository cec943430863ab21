"""tools/costs.json from the evidence of the last quick runs."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, "tools", "costs.json")
costs = json.load(open(path))
for f in sorted(glob.glob(os.path.join(HERE, "evidence", "C*.json"))):
    e = json.load(open(f))
    if e["tier"] == "quick":
        c = e["coverage"]
        costs[e["property"]] = "%d paths, %d queries, %.0f s" % (c["states"], c["solver_queries"], e["wall_s"])
json.dump(costs, open(path, "w"), indent=1, sort_keys=True)
