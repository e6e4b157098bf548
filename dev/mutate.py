#!/usr/bin/env python3
"""Development: random mutants of the library's covered lines, run through all
checks at reduced size. mutate.py OUT.jsonl N SEED REPOCOPY WORK [file-regex]
Needs WORK/lines.json (gcov counts per line, from covsum.py)."""
import json, os, random, re, subprocess, sys, collections, glob, shutil, time
out, n, seed, repo, work = sys.argv[1:6]
filt = sys.argv[6] if len(sys.argv) > 6 else "."
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import BINARIES, CHECKS
n = int(n); rnd = random.Random(int(seed))
lines = json.load(open(work + "/lines.json"))
SKIP = re.compile(r"printf|DEBUG|assert|^\s*//|^\s*\*|^\s*/\*|#|_free\(|free\(|alloc|rtclock|time|fprintf|debug|silent")
OPS = [
    (r"(?<![<>=!-])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![->])>(?![>=])", [">="]), (r">=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"\+ 1\b", ["", "+ 2"]), (r"- 1\b", ["", "+ 1"]), (r" \+ ", [" - "]), (r" - ", [" + "]),
    (r"= 0;", ["= 1;"]), (r"= 1;", ["= 0;"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bsrc\b", ["dest"]), (r"\bdest\b", ["src"]), (r"\bnrows\b", ["ncols"]), (r"\+=", ["-="]),
    (r"\bPLMAX\b", ["PLMIN"]), (r"\bPLMIN\b", ["PLMAX"]), (r"\(!", ["("]), (r"\bbreak;", [";", "continue;"]), (r"\bcontinue;", [";"]),
    (r"\+\+\)", ["++, %s)"]),
]
OPS = OPS[:-1]
src = {}
cand = []
for f, ls in lines.items():
    f = repo + f[f.index("/lib/"):] if "/lib/" in f else None
    if not f or not re.search(filt, f): continue
    txt = open(f).read().split("\n"); src[f] = txt
    for l, c in ls.items():
        l = int(l)
        if not c or l > len(txt): continue
        t = txt[l - 1]
        if SKIP.search(t): continue
        for rx, reps in OPS:
            for m in re.finditer(rx, t):
                for r in reps: cand.append((f, l, t[:m.start()] + r + t[m.end():]))
        if re.match(r"^\s+[\w>\[\]\.\-\(\)\*]+(\(.*\)| [+\-|&]?= .*);$", t) and not re.match(r"^\s+(return|int|unsigned|bool|PlutoConstraints|Stmt|Dep)\b", t):
            cand.append((f, l, re.match(r"^\s*", t).group(0) + ";"))
print(len(cand), "candidates")
known = json.load(open(HERE + "/known_findings.json"))["known"]
TOL = re.compile(r"out of memory|allocation-size-too-big|crash exit 1\b|requested allocation size|exceeds maximum")
ENV = dict(os.environ, PLUTO_REPO=repo, ASAN_OPTIONS="detect_leaks=0:handle_abort=1:allocator_may_return_null=1:abort_on_error=0", OMP_NUM_THREADS="1")
FRAC = float(os.environ.get("FRAC", "0.2"))
SECS = os.environ.get("SECS", "40")
def check(prop, path):
    d = work + "/mrun"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    cases = int(CHECKS[prop]["cases"]["quick"] * FRAC)
    subprocess.run([path, "run", prop, str(cases), "1", "8", SECS, d, d + "/res"], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    k = collections.Counter(); tot = to = 0
    for f in glob.glob(d + "/res.*"):
        for l in open(f, errors="replace"):
            try: r = json.loads(l)
            except ValueError: continue
            tot += 1
            if r["st"] == "timeout": to += 1
            if r["st"] not in ("fail", "crash"): continue
            sc, cls = r["sc"], r.get("cls", "")
            if TOL.search(cls) or (sc.endswith("~") and cls.startswith("crash assert")): continue
            if any(q["property"] == prop and re.fullmatch(q["scenario"], sc) and q["class"] == cls for q in known): continue
            k[sc + "|" + cls[:80]] += 1
    if tot and to > 0.04 * tot and to >= 5: k["timeouts"] = to
    return k
for i in range(n):
    f, l, new = rnd.choice(cand)
    old = src[f][l - 1]
    txt = list(src[f]); txt[l - 1] = new
    open(f, "w").write("\n".join(txt))
    rec = {"file": os.path.basename(f), "line": l, "old": old.strip(), "new": new.strip(), "killed": {}}
    try:
        bins = {}
        for b, (v, s) in BINARIES.items():
            os.makedirs(work + "/" + v, exist_ok=True)
            r = subprocess.run([sys.executable, HERE + "/harness/build.py", work + "/" + v, v, work + "/m-" + b] + s, env=ENV, capture_output=True, text=True)
            if r.returncode: rec["build"] = r.stderr[-200:]; break
        if "build" not in rec:
            order = sorted(CHECKS, key=lambda p: {"core": 0, "int": 1, "api": 2}.get(CHECKS[p]["binary"], 3))
            base = os.path.basename(f)
            if base not in ("constraints.c", "constraints_isl.c", "math_support.c", "isl_support.c", "constraints_polylib.c", "program.cpp"):
                order = [p for p in order if CHECKS[p]["binary"] != "core"]
            if base in ("plutolib.c", "framework.cpp", "framework-dfp.c", "tile.c", "tile_size_selection_model.cpp", "post_transform.c"):
                order = [p for p in order if CHECKS[p]["binary"] != "int"]
            first = {"tile.c": ["C06", "C05", "C01"], "plutolib.c": ["C08", "C02", "C16"], "framework.cpp": ["C01", "C02", "C07"], "framework-dfp.c": ["C01", "C07"],
                     "tile_size_selection_model.cpp": ["C22"], "iss.c": ["C09"], "transforms.c": ["C21"], "polyloop.c": ["C19"], "ddg.c": ["C14"],
                     "pluto.c": ["C18", "C14", "C20", "C07", "C01"]}.get(base, [])
            order = [p for p in first if p in order] + [p for p in order if p not in first]
            for p in order:
                k = check(p, work + "/m-" + CHECKS[p]["binary"])
                if k:
                    rec["killed"][p] = dict(k.most_common(3))
                    if os.environ.get("FIRST", "1") == "1": break
    finally:
        open(f, "w").write("\n".join(src[f]))
    open(out, "a").write(json.dumps(rec) + "\n")
    os.system("cd %s && ls -t asan/*.o | tail -n +150 | xargs -r rm -f" % work)
