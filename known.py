#!/usr/bin/env python3
"""Development helper, never run by a check: records a shrunk failure as the replay of a known finding.
  known.py REPLAY NAME SCENARIO_REGEX WHAT     or     known.py --refresh (re-find stale replays by class)"""
import json, sys, os, subprocess, glob
H = os.path.dirname(os.path.abspath(__file__))
K = H + "/known_findings.json"
if sys.argv[1] == "--refresh":
    sys.path.insert(0, H)
    from checks import CHECKS
    import run
    d = json.load(open(K))
    for k in d["known"]:
        path = run.build(CHECKS[k["property"]]["binary"])
        f, cls, _ = run.replay(path, H + "/" + k["replay"], H + "/.work/sw")
        if f and cls == k["class"]:
            continue
        print("stale:", k["replay"])
        for seed in range(1, 9):
            rf = H + "/.work/known.res"
            for x in glob.glob(rf + "*"): os.remove(x)
            old = json.load(open(H + "/" + k["replay"]))
            subprocess.run([path, "run", k["property"], "3000", str(seed), "8", "120", H + "/.work/sw", rf, old["scenario"]], env=run.ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            c = []
            for x in glob.glob(rf + ".*"):
                for l in open(x, errors="replace"):
                    r = json.loads(l)
                    if r["st"] in ("fail", "crash") and r.get("cls") == k["class"]: c.append(r)
            if c:
                c.sort(key=lambda r: len(r["ch"]))
                json.dump({"property": k["property"], "scenario": c[0]["sc"], "choices": c[0]["ch"]}, open(H + "/.work/known.case", "w"))
                subprocess.run([path, "shrink", H + "/.work/known.case", H + "/.work/sw", "40", H + "/" + k["replay"]], env=run.ENV, stdout=subprocess.DEVNULL)
                print("refreshed")
                break
        else:
            print("NOT FOUND")
    sys.exit()
src, name, sc, what = sys.argv[1:5]
r = json.load(open(src))
dst = "known/%s.json" % name
json.dump(r, open(H + "/" + dst, "w"), indent=1)
d = json.load(open(K))
d["known"] = [k for k in d["known"] if k["replay"] != dst]
d["known"].append({"property": r["property"], "scenario": sc, "class": r["class"], "replay": dst, "what": what})
json.dump(d, open(K, "w"), indent=1)
