"""Rewrites sections 5 and 6 of DESIGN.md from seeded/, tools/catches.txt and known_findings.json (run by hand, never by a check)."""
import json, os, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
catch = dict(l.rstrip("\n").split("|") for l in open(os.path.join(D, "tools", "catches.txt")) if l.strip())
out = ["## 5. Planted bugs and which checks catch them", "",
       "Each lies in `seeded/<id>/` and was confirmed: it applies, the 1210 stable tests pass, `demo.sh` passes without and fails with it.",
       "\"first run\" is the index of the first violating run of the quick check with `VERIF_SEED=1` (a lower number: easier to find).", "",
       "| planted bug | what it needs in order to show | caught by |", "|---|---|---|"]
S = os.path.join(D, "seeded")
for n in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, n, "meta.json")))
    out.append(f"| {n} | {m['needs']} | {catch.get(n, m['property'])} |")
k = json.load(open(os.path.join(D, "known_findings.json")))
out += ["", "## 6. Genuine defects found and repaired", "",
        "Every line is one `fix:` commit in `/repo`, found by the check named first (short hash second).", ""]
for l in k["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    out.append(f"* {m[1]} `{m[2]}` {m[3]}")
out += ["", "Recorded, not repaired (`known_findings.json`; each is matched by the kind of the failing history only):", ""]
for f in k["known"]:
    out.append(f"* {f['id']} ({f['property']}) {f['what']}")
p = os.path.join(D, "DESIGN.md")
s = open(p).read()
a = s.find("## 5.")
b = s.find("## 7.")
head = s[:a] if a >= 0 else s.rstrip("\n") + "\n\n"
tail = s[b:] if b >= 0 else ""
open(p, "w").write(head + "\n".join(out) + "\n\n" + tail)
