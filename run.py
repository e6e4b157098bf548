#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

  run.py PROPERTY [--tier quick|thorough] [--seed N] [--cases N]
  run.py --replay FILE          replays one recorded case (exit 1: it fails)
  run.py --setup                builds every harness once

Exit 0: held on everything explored. Exit 1, with a VIOLATION line: it did not.
"""
import argparse, collections, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, BINARIES

WORK = HERE + "/.work"
SAN = "detect_leaks=0:handle_abort=1:allocator_may_return_null=1:abort_on_error=0"
ENV = dict(os.environ, ASAN_OPTIONS=SAN, UBSAN_OPTIONS="print_stacktrace=1",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66", OMP_NUM_THREADS="1", LC_ALL="C")
ENV.pop("PBT_DESCRIBE", None)


def build(binary):
    variant, sources = BINARIES[binary]
    out = WORK + "/" + variant
    os.makedirs(out, exist_ok=True)
    path = "%s/bin-%s" % (WORK, binary)
    r = subprocess.run([sys.executable, HERE + "/harness/build.py", out, variant, path] + sources,
                       capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-4000:] + r.stderr[-4000:])
        print("cannot build the harness: no answer")
        sys.exit(2)
    # stale objects of earlier trees
    objs = sorted(glob.glob(out + "/*.o"), key=os.path.getmtime)
    for o in objs[:-400]:
        try:
            os.remove(o)
        except OSError:
            pass
    return path


def replay(path, case, scratch):
    """-> (failed, class, output)"""
    r = subprocess.run([path, "replay", case, scratch], capture_output=True, text=True, errors="replace", env=ENV)
    m = re.search(r"^class: (.*)$", r.stdout, re.M)
    return r.returncode == 1, (m.group(1) if m else ""), r.stdout


TOLERATED = re.compile(r"out of memory|allocation-size-too-big|crash exit 1\b|requested allocation size|exceeds maximum")


def inconclusive(sc, cls):
    """Failures that say nothing: resources ran out, or an assertion of the
    code itself stopped a scenario (named ...~) in which giving up is allowed."""
    if TOLERATED.search(cls):
        return True
    return sc.endswith("~") and cls.startswith("crash assert")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--keep", action="store_true", help="keep the raw results (development)")
    a = ap.parse_args()
    os.makedirs(WORK, exist_ok=True)
    if a.setup:
        for b in BINARIES:
            build(b)
        return 0
    if a.replay:
        prop = json.load(open(a.replay))["property"]
        path = build(CHECKS[prop]["binary"])
        scratch = tempfile.mkdtemp(prefix="replay.", dir=WORK)
        f, _, out = replay(path, os.path.abspath(a.replay), scratch)
        shutil.rmtree(scratch, ignore_errors=True)
        print(out)
        return 1 if f else 0

    prop, tier = a.property, "thorough" if a.tier == "thorough" else "quick"
    chk = CHECKS[prop]
    t0 = time.time()
    path = build(chk["binary"])
    tb = time.time() - t0
    cases = a.cases or chk["cases"][tier]
    secs = chk.get("secs", {}).get(tier, 150 if tier == "quick" else 700)
    scratch = tempfile.mkdtemp(prefix="run-%s." % prop, dir=WORK)
    try:
        return explore(prop, tier, chk, path, cases, secs, scratch, a, t0, tb)
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)


def explore(prop, tier, chk, path, cases, secs, scratch, a, t0, tb):
    seed = a.seed
    subprocess.run([path, "run", prop, str(cases), str(seed), "8", str(secs), scratch, scratch + "/res"],
                   env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    rows = []
    for f in sorted(glob.glob(scratch + "/res.*")):
        for l in open(f, errors="replace"):
            try:
                rows.append(json.loads(l))
            except ValueError:
                pass
    if not rows:
        print("the harness produced nothing: no answer")
        return 2
    if a.keep:
        json.dump(rows, open(WORK + "/rows-%s.json" % prop, "w"))
    counts = collections.Counter((r["sc"], r["st"]) for r in rows)
    tags = collections.Counter()
    nontrivial, keys = 0, set()
    samples, per = [], collections.Counter()
    for r in rows:
        for k, v in r.get("tags", {}).items():
            tags[k] += v
        if r["st"] in ("ok", "fail", "crash"):
            nontrivial += 1
            if r.get("key") not in (None, "0"):
                keys.add(r["key"])
        if r["st"] == "ok" and r.get("desc") and per[r["sc"]] < 3:
            per[r["sc"]] += 1
            samples.append({"scenario": r["sc"], "input": r["desc"][:1500]})
    known = [k for k in json.load(open(HERE + "/known_findings.json"))["known"] if k["property"] == prop]
    for k in known:
        f, cls, _ = replay(path, HERE + "/" + k["replay"], scratch)
        if f and cls == k["class"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    groups = collections.defaultdict(list)
    for r in rows:
        if r["st"] in ("fail", "crash"):
            groups[(r["sc"], r.get("cls", ""))].append(r)
    n_known = n_incon = n_unrepro = 0
    violations = []
    for (sc, cls), rs in sorted(groups.items(), key=lambda g: -len(g[1])):
        if inconclusive(sc, cls):
            n_incon += len(rs)
            continue
        if any(re.fullmatch(k["scenario"], sc) and k["class"] == cls for k in known):
            n_known += len(rs)
            continue
        if len(violations) >= 3:
            continue
        rs.sort(key=lambda r: len(r.get("ch", [])))
        done = False
        for r in rs[:4]:
            case = scratch + "/case.json"
            json.dump({"property": prop, "scenario": sc, "choices": r.get("ch", [])}, open(case, "w"))
            outs = [replay(path, case, scratch) for _ in range(3)]
            if not all(o[0] for o in outs) or inconclusive(sc, outs[0][1]):
                n_unrepro += 1
                continue
            if any(re.fullmatch(k["scenario"], sc) and k["class"] == outs[0][1] for k in known):
                n_known += 1
                continue
            os.makedirs(HERE + "/replays", exist_ok=True)
            dst = "%s/replays/%s-%d.json" % (HERE, prop, len(violations))
            subprocess.run([path, "shrink", case, scratch, "40" if not violations else "15", dst], env=ENV,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            ok = False
            try:
                ok = json.load(open(dst))["class"] == outs[0][1] and replay(path, dst, scratch)[0]
            except (OSError, ValueError, KeyError):
                pass
            if not ok:
                json.dump({"property": prop, "scenario": sc, "class": outs[0][1], "message": outs[0][2][:4000],
                           "choices": r.get("ch", [])}, open(dst, "w"))
            violations.append({"scenario": sc, "class": outs[0][1], "replay": dst, "cases": len(rs)})
            d = json.load(open(dst))
            print("---- %s / %s" % (sc, outs[0][1]))
            print("\n".join(x[:400] for x in (d.get("message", "") + "\n" + d.get("input", "")).split("\n")[:40]))
            print("VIOLATION property=%s replay=%s" % (prop, dst), flush=True)
            done = True
            break
        if not done:
            print("note: %d case(s) of %s '%s' did not fail again in isolation" % (len(rs), sc, cls[:200]))
    # Cases that do not end: a few are expected (isl or the ILP takes long);
    # a large share that does not end with six times the limit is a failure.
    to = [r for r in rows if r["st"] == "timeout" and r.get("ch")]
    nto = sum(1 for r in rows if r["st"] == "timeout")
    if not violations and nto >= 5 and nto > chk.get("hang_share", 0.04) * len(rows) and to:
        hung = 0
        env = dict(ENV, PBT_TIMEOUT="60")
        for r in to[:3]:
            case = scratch + "/case.json"
            json.dump({"property": prop, "scenario": r["sc"], "choices": r["ch"]}, open(case, "w"))
            q = subprocess.run([path, "replay", case, scratch], capture_output=True, text=True, errors="replace", env=env)
            hung += bool(re.search(r": timeout$", q.stdout, re.M))
        if hung == min(3, len(to)):
            os.makedirs(HERE + "/replays", exist_ok=True)
            dst = "%s/replays/%s-hang.json" % (HERE, prop)
            shutil.copy(case, dst)
            violations.append({"scenario": to[0]["sc"], "class": "does not end", "replay": dst, "cases": nto})
            print("VIOLATION property=%s replay=%s" % (prop, dst), flush=True)

    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(rows), "distinct_nontrivial": len(keys), "rule": chk["rule"],
            "samples": samples[:12] if samples else [{"note": "no non-trivial case"}],
            "by_scenario": {"%s:%s" % k: v for k, v in sorted(counts.items())},
            "counters": dict(tags), "known_findings_hit": n_known, "inconclusive_crashes": n_incon,
            "not_reproduced": n_unrepro, "planned_cases": cases,
        },
        "wall_s": round(wall, 2), "violations": violations,
        "assumptions": chk.get("assumptions", []),
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    tmp = HERE + "/evidence/.%s.%d" % (prop, os.getpid())
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, HERE + "/evidence/%s.json" % prop)
    print("%s %s: %d cases, %d distinct non-trivial, %d known, %d inconclusive, %.0f s (build %.0f s)%s" % (
        prop, tier, len(rows), len(keys), n_known,
        n_incon + sum(v for k, v in counts.items() if k[1] in ("inconclusive", "timeout")), wall, tb,
        "" if len(rows) >= cases else " -- time budget reached, %d planned" % cases))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
