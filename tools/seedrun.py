#!/usr/bin/env python3
"""seedrun.py [--all | --related] [ID...]: runs the check of each planted bug's property against a scratch copy with the bug.
--all: every check; --related: also those that concern the changed files (at a third of their cases)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(HERE + "/seeded"))
sys.path.insert(0, HERE)
import checks as C
allp = "--all" in sys.argv
related = "--related" in sys.argv


def concerned(i):
    import re
    src = open(HERE + "/tools/mutate.py").read()
    ns = {}
    exec(src[src.index("MAP = ["):src.index("SWAPS")], ns)
    out = []
    for f in re.findall(r"^\+\+\+ b/(.*)$", open(f"{HERE}/seeded/{i}/patch.diff").read(), re.M):
        for r, ps in ns["MAP"]:
            if re.search(r, f):
                out += [p for p in ps.split() if p not in out]
                break
    return out


def one(i):
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        subprocess.run(["git", "-C", d + "/repo", "apply", f"{HERE}/seeded/{i}/patch.diff"], check=True)
        os.makedirs(d + "/verif")
        for x in ("engine", "harness", "check.py", "checks.py", "known-findings.txt"):
            s = os.path.join(HERE, x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, "verif", x))
        prop = json.load(open(f"{HERE}/seeded/{i}/meta.json"))["property"]
        res = {}
        for p in (sorted(C.CHECKS) if allp else [prop] + [p for p in concerned(i) if p != prop] if related else [prop]):
            r = subprocess.run([sys.executable, "check.py", p, "quick"] + (["--scale", "0.3"] if related and p != prop else []), cwd=d + "/verif", env=dict(os.environ, CCL_REPO=d + "/repo"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            res[p] = r.returncode
            shutil.rmtree(d + "/verif/build", ignore_errors=True)
        own = "caught" if res[prop] == 1 else f"MISSED({res[prop]})"
        print(f"{i:36} {prop} {own}", " ".join(k for k, v in res.items() if v == 1 and k != prop), [k for k, v in res.items() if v not in (0, 1)] or "", flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(4) as ex:
    list(ex.map(one, ids))
