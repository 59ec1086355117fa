"""regenerates the two tables at the end of DESIGN.md (planted changes, repairs) from seeded/, known_findings.json and git"""
import json, os, subprocess, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["## Planted changes and the checks that catch them", "", "| planted change | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), m.get("caught_by", m["property"])))
out += ["", "## Repairs made in /repo (one commit each)", ""]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "b6ac3b2..HEAD"], capture_output=True, text=True).stdout
out += ["- `%s` %s" % tuple(l.split(" ", 1)) for l in log.splitlines()]
out += ["", "## Recorded, not repaired (known_findings.json)", ""]
for f in json.load(open(V + "/known_findings.json"))["findings"]:
    if f["status"] == "known":
        out.append("- %s `%s`: %s" % (f["property"], f["key"].replace("|", " / "), f["what"]))
p = V + "/DESIGN.md"
s = open(p).read()
s = s.split("## Planted changes and the checks")[0].rstrip() + "\n\n" + "\n".join(out) + "\n"
open(p, "w").write(s)
