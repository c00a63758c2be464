#!/usr/bin/env python3
"""matrix.py [--checks own|all|C01,C02] [--thorough] [seeded-id ...]: which checks catch which planted bugs.

Applies each patch to /repo, runs the checks, undoes it. Prints one line per run."""
import glob, json, os, subprocess, sys, time
args = sys.argv[1:]
checks, tier = "own", "--quick"
if "--checks" in args:
    i = args.index("--checks"); checks = args[i + 1]; del args[i:i + 2]
if "--thorough" in args:
    args.remove("--thorough"); tier = "--thorough"
ids = args or sorted(os.path.basename(p) for p in glob.glob("/verif/seeded/*"))
ALL = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
def git(*a): subprocess.run(["git", "-C", "/repo"] + list(a), check=True)
for b in ids:
    d = "/verif/seeded/" + b
    own = json.load(open(d + "/meta.json"))["property"]
    cs = [own] if checks == "own" else ALL if checks == "all" else checks.split(",")
    git("apply", d + "/patch.diff")
    try:
        for c in cs:
            t = time.time()
            p = subprocess.run(["python3", "/verif/check.py", c, tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            l = [x for x in p.stdout.splitlines() if "unit" in x or "no verdict" in x][:1]
            print(f"{b:32} {'own' if c == own else '   '} {c} rc={p.returncode} {time.time()-t:5.0f}s {(l[0].strip() if l else '')[:170]}", flush=True)
    finally:
        git("checkout", "--", ".")
