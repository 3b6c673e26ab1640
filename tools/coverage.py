#!/usr/bin/env python3
"""coverage.py OUTDIR [PROPERTY...]: which lines of the library the checks run. Builds the harnesses with gcov in OUTDIR
(a scratch directory), runs a fraction of the quick cases and lists, per source file, the lines no check reached."""
import sys, os, glob, gzip, json, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check as K, checks as C
out = os.path.abspath(sys.argv[1])
props = sys.argv[2:] or [p for p in C.CHECKS if p != "H01"]
scale = float(os.environ.get("COV_SCALE", "0.03"))
os.makedirs(out, exist_ok=True)
K.BUILD = os.path.join(out, "build")
K.SAN = ["--coverage", "-DPBT_COV", "-fprofile-update=atomic"]
K.COMMON = [x if x != "-O1" else "-O0" for x in K.COMMON]
hit = {}
for p in props:
    exe, err = K.build(p, C.CHECKS[p], "san")
    if exe is None:
        print(p, "does not build", err[:2000]); continue
    scratch = tempfile.mkdtemp(prefix="ccl-cov-")
    r = subprocess.run([exe, "--seed", "1", "--scratch", scratch, "--out", scratch + "/summary", "--replay-dir", scratch, "--scale", str(scale)],
                       cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env={**os.environ, **K.ENV_SAN})
    shutil.rmtree(scratch)
    d = os.path.dirname(exe)
    for gcda in glob.glob(os.path.join(K.BUILD, p + "-san-*", "*.gcda")):
        o = os.path.join(d, os.path.basename(gcda))
        if gcda != o: shutil.copy(gcda, o)
    for gcda in glob.glob(d + "/*.gcda"):
        j = subprocess.run(["gcov", "--json-format", "--stdout", gcda], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        for line in j.stdout.splitlines():
            try: x = json.loads(line)
            except ValueError: continue
            for f in x["files"]:
                name = os.path.normpath(os.path.join(x["current_working_directory"], f["file"]))
                if not name.startswith(K.REPO + "/api"): continue
                h = hit.setdefault(name[len(K.REPO) + 1:], {})
                for l in f["lines"]:
                    h[l["line_number"]] = h.get(l["line_number"], 0) + l["count"]
    print(p, r.returncode, flush=True)
total = miss = 0
for name in sorted(hit):
    h = hit[name]
    bad = sorted(k for k, v in h.items() if v == 0)
    total += len(h); miss += len(bad)
    if bad: print(f"{name}: {len(h) - len(bad)}/{len(h)}; not reached: {bad}")
print(f"{total - miss} of {total} lines reached")
