"""mkdesign.py: DESIGN.md = tools/design_head.md + one section per property (from properties.jsonl, the check modules) + design_tail.md
+ the table of planted bugs (from seeded/*/meta.json and tools/seeded_results.json)."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.isupper():
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def main():
    extra = json.load(open(V + "/tools/design_notes.json"))
    out = [open(V + "/tools/design_head.md").read().rstrip(), "\n## Properties\n"]
    for line in open(V + "/properties.jsonl"):
        p = json.loads(line)
        c = consts("%s/mc/%s.py" % (V, p["id"].lower()))
        e = extra.get(p["id"], {})
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append("*Specified:* %s\n" % p["statement"])
        out.append("*Quantified over:* %s. Anchored in %s.\n" % (p["quantifier"]["text"], ", ".join(p["anchors"]["files"])))
        out.append("*Decided by:* %s.\n" % c["TECHNIQUE"])
        out.append("*Bounds and oracle:* %s\n" % c["LEVEL_NOTE"])
        out.append("*Counting:* %s.\n" % c["RULE"])
        out.append("*Assumed:* %s.\n" % "; ".join(c["ASSUMPTIONS"]))
        out.append("*Why tests cannot settle it:* %s\n" % p["why_tests_cant"])
        if e.get("cost"):
            out.append("*Cost (8 cores):* %s\n" % e["cost"])
        if e.get("note"):
            out.append("*Notes:* %s\n" % e["note"])
    out.append(open(V + "/tools/design_tail.md").read().rstrip())
    f = json.load(open(V + "/known_findings.json"))
    out.append("\n## Defects repaired in /repo\n")
    out += ["- " + x for x in f["fixed"]]
    out.append("\n## Known findings (recorded, not repaired)\n")
    out += ["- %s `%s`: %s" % (x["property"], x["key"], x["what"]) for x in f["findings"]]
    out.append("\n## Planted bugs and what catches them\n")
    res = {}
    if os.path.exists(V + "/tools/seeded_results.json"):
        res = json.load(open(V + "/tools/seeded_results.json"))
    out.append("Each was written from the property text and the code; all pass the 31 stable tests. `caught` lists the quick checks that were run on it and reported it.\n")
    out.append("| bug | property | needs | caught by |\n|---|---|---|---|")
    for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
        d = json.load(open(m))
        i = os.path.basename(os.path.dirname(m))
        out.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), res.get(i, "?")))
    open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")


main()
