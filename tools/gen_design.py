"""Fills the tables of DESIGN.md (run after changing harnesses or planted bugs)."""
import importlib.util
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
ORACLE = {
    "C01": "the formula 'this rule fits here' of every rule: the returned one holds, those of all cheaper rules do not",
    "C02": "the same formulas: true for listed rules, false for all others; order by number of needed tokens",
    "C03": "per token of the result: it is a prefix of the rest and no longer token is; for an error, the greedy scan gets stuck (formula over all scans)",
    "C04": "the documented framing and consolidation applied to the unconsolidated token list",
    "C05": "composition of match_at on an untouched second object",
    "C06": "first on-match rule whose class formulas hold, computed from the rules the run reports",
    "C07": "an independent scan of the characters and of the positions without a rule",
    "C08": "a fresh object, and the documented meaning of the settings",
    "C09": "no two equally costly rules can both fit unless a cheaper one does (formula over all token sequences)",
    "C10": "formula: some pair has a common context not inside one cheaper rule's",
    "C11": "field-by-field equality with the original, including the graph; equal outputs",
    "C12": "field-by-field equality with the original; equal outputs; levels other than 0-2 refused",
    "C13": "the option passed, per route, and what it must cause",
    "C14": "comparison of the numbers as integers",
    "C15": "sort by number of needed tokens, stable; equal outputs under permutation",
    "C16": "the rule whose components were written",
    "C17": "a character-level recognizer of the documented form",
    "C18": "a scan for braces and the Unicode name table",
    "C19": "formula: every reference is to a defined name",
    "C20": "outcome is a result or one of two errors, within a step limit",
    "C21": "a transliterator built from the remaining rules",
    "C22": "a trace of the run computed from the settings; the plain class's results",
    "C23": "tree properties checked node by node against the rules",
    "C24": "a list of the edges added so far",
    "C25": "copies taken before",
    "C26": "the library called directly",
    "C27": "the other route",
    "C28": "the other object's dump; the dump of the reloaded dump",
    "C29": "formula: some key is made of the tokens and one member of each class; the output of transliterating it",
    "C30": "each source transliterated and compared directly",
    "C31": "the settings of the YAML file; a listing of all files before",
    "C32": "the object the constructor builds from the documented meaning",
    "C33": "tables computed from the settings",
    "C34": "the same object made and used alone",
    "C35": "each call made alone",
    "C36": "the errors, conflicts and omissions computed from the settings",
    "C37": "a description of well-formed settings written from the documentation; nothing is required where values are converted by intention",
    "C38": "the undefined references, found in the settings themselves",
}
# missed when written (by the checks of that day)
FIRST_MISSED = set("""no-zero-in-dump onmatch-after-skip same-output-ok shared-tokens-prune skip-combining
stale-input-tokens keep-onmatch-visits first-edge-cost easy-pop constraint-alias cli-json-file-flags class-cache
endless-skip json-not-truncated rule-from-last-key class-ids-as-text onmatch-order-as-text""".split())
if os.path.exists(os.path.join(HERE, "tools", "first_missed.txt")):
    FIRST_MISSED |= set(open(os.path.join(HERE, "tools", "first_missed.txt")).read().split())


def meta(pid):
    f = os.path.join(HERE, "harness", pid.lower() + ".py")
    spec = importlib.util.spec_from_file_location("m", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.META


out = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    m = meta(p["id"])
    b = m["bounds"] if isinstance(m["bounds"], dict) else {"quick": m["bounds"]}
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("* Symbolic, within these bounds: %s." % b["quick"])
    if "thorough" in b:
        out.append("* Thorough: %s." % b["thorough"])
    out.append("* Oracle: %s." % ORACLE[p["id"]])
    out.append("* Outside: %s." % m.get("outside", "-"))
    cost = os.path.join(HERE, "tools", "costs.json")
    if os.path.exists(cost):
        c = json.load(open(cost)).get(p["id"])
        if c:
            out.append("* Cost (quick): %s." % c)
    out.append("")
table = "\n".join(out)
rows = ["| planted bug | property | needs | breaks | first |", "| --- | --- | --- | --- | --- |"]
d = os.path.join(HERE, "seeded")
metas = []
for x in os.listdir(d):
    m = json.load(open(os.path.join(d, x, "meta.json")))
    metas.append((m["property"], x, m))
for prop, x, m in sorted(metas, key=lambda t: t[:2]):
    rows.append("| %s | %s | %s | %s | %s |" % (x, prop, m["needs"], m["what_it_breaks"],
                                              "missed" if x in FIRST_MISSED else "caught"))
seeds = "\n".join(rows)
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
for name, text in (("table", table), ("seeds", seeds)):
    s = re.sub("(<!-- begin %s -->\n).*?(<!-- end %s -->)" % (name, name),
               lambda mm: mm.group(1) + text + "\n" + mm.group(2), s, flags=re.S)
open(f, "w").write(s)
