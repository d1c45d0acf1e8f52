"""Rewrites the generated parts of DESIGN.md: the table of properties and the table of planted bugs."""
import json, os, re, glob
R = "/verif/"
props = [json.loads(l) for l in open(R + "properties.jsonl")]
checks = {c["property"]: c for c in json.load(open(R + "MANIFEST.json"))["checks"]}
mods = {os.path.basename(p)[:-4] for p in glob.glob(R + "spec/*.tla")}
common = {"image_common"}
def specs(id):
    t = open(R + f"harness/p_{id}.py").read()
    for m in re.findall(r"(?:from|import) (\w+_common)", t):
        t += open(R + f"harness/{m}.py").read() if m not in common else ""
    return sorted(m for m in set(re.findall(r'"(\w+)"', t)) if m in mods)
out = []
for p in props:
    c = checks.get(p["id"])
    ev = R + f"evidence/{p['id']}.json"
    cost = ""
    if os.path.exists(ev):
        e = json.load(open(ev)); cv = e["coverage"]
        if e.get("tier") == "quick":
            cost = f" Quick run: {cv.get('states')} states, {cv.get('traces_validated_against_impl')} executions of the code, {e.get('wall_s', 0):.0f} s."
    out.append(f"### {p['id']} — {p['title']}\n\n{p['statement']}\n\n*Decided by*: {c['technique']}; modules {', '.join(specs(p['id']))}. {c['level_note']}{cost}\n")
seeds = []
for m in sorted(glob.glob(R + "seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} |")
t = open(R + "DESIGN.md").read()
def put(t, tag, body):
    a, b = f"<!-- {tag} -->\n", f"<!-- end {tag} -->"
    i, j = t.index(a) + len(a), t.index(b)
    return t[:i] + body + t[j:]
t = put(t, "properties", "\n".join(out))
t = put(t, "seeds", "| planted bug | caught by | needs |\n|---|---|---|\n" + "\n".join(seeds) + "\n")
open(R + "DESIGN.md", "w").write(t)
print(len(out), "properties", len(seeds), "seeds")
