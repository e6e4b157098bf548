"""Rewrites the "fixed" list of known_findings.json from the fix: commits in /repo."""
import json, subprocess, re
MAP = [("leak|left open", "C26"), ("through isl", "C10"), ("diamond tiling could lose", "C25"), ("tile space loops|unroll-and-jam", "C23"), ("converting to an isl map", "C11"), ("gcd and lcm|truncated to 32", "C13"), ("automatic tile sizes", "C22"), ("strip-mining|cloning a statement", "C21"), ("index set splitting", "C09"), ("dangling name", "C10"), ("not to be tiled", "C07"), ("silent mode", "C16"), ("unequal strides|lastwriter", "C03"), ("innerpar", "C05"), ("disjuncts of a domain lost|adding to each|copying constraints over|constant bounds", "C10"),
       ("printed|reading constraints", "C17"), ("rank of|interchanging matrix", "C13"), ("transitive closure|connected component", "C14"), ("multi-valued access", "C04"),
       ("string interface|remapping", "C08")]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    p = next((p for k, p in MAP if re.search(k, s)), "C01")
    out.append("fixed: property=%s %s %s" % (p, h, s[5:]))
f = json.load(open("/verif/known_findings.json")); f["fixed"] = out
json.dump(f, open("/verif/known_findings.json", "w"), indent=1)
