import json, os, re, sys
ROOT = sys.argv[1]
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
man = json.load(open(ROOT + "/MANIFEST.json"))
bounds = json.load(open(ROOT + "/bounds.json"))
how = json.load(open(ROOT + "/tools/how.json"))
head = open(ROOT + "/tools/design_head.md").read()
tail = open(ROOT + "/tools/design_tail.md").read()
out = [head]
na = {n["property"]: n["reason"] for n in man["not_applicable"]}
out.append("## 4. The properties\n")
for p in props:
    i = p["id"]
    out.append("### %s — %s\n" % (i, p["title"]))
    out.append("*Statement.* " + p["statement"] + "\n")
    if i in na:
        out.append("**Not claimed.** " + na[i] + "\n")
        continue
    h = how.get(i, {})
    out.append("*How it is decided.* " + h.get("how", "") + "\n")
    if h.get("oracle"):
        out.append("*Oracle.* " + h["oracle"] + "\n")
    out.append("*" + bounds[i]["bounds"].replace("Bounds:", "Bounds.*", 1) + (" Cost of the quick tier: %s." % h["cost"] if h.get("cost") else "") + "\n")
    out.append("*Why tests cannot settle it.* " + p["why_tests_cant"][0].upper() + p["why_tests_cant"][1:] + ".\n")
seeds = ["## 5. Planted changes and what catches them\n", "| change | breaks | needs | caught by |", "|---|---|---|---|"]
sd = "/verif/seeded"
caught = json.load(open(ROOT + "/tools/caught.json"))
for d in sorted(os.listdir(sd)):
    m = json.load(open("%s/%s/meta.json" % (sd, d)))
    f = lambda s: re.sub(r"\s+", " ", s).replace("|", "/")
    seeds.append("| %s | %s: %s | %s | %s |" % (d, m["property"], f(m["what_it_breaks"]), f(m["needs"]), caught.get(d, m["property"] + " (quick)")))
out.append("\n".join(seeds) + "\n")
kn = ["## 6. Genuine defects found\n", "Repaired (one `fix:` commit each in /repo; a check reports each again if it returns):\n"]
fx, kf = [], []
for l in open(ROOT + "/known_findings.txt"):
    if l.startswith("fixed:"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        fx.append("- %s `%s` %s" % m.groups())
    elif l.startswith("known:"):
        h, _, w = l.partition(" | ")
        kf.append("- %s — %s" % (re.search(r"property=(\S+) case=(\S+)", h).expand(r"\1 case `\2`"), w.strip()))
kn += fx + ["", "Recorded, not repaired (printed as KNOWN-FINDING on every run):\n"] + kf
out.append("\n".join(kn) + "\n")
out.append(tail)
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
