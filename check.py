#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough [--replay FILE] [--seed N] [--scale X]

Builds the harness of one property against /repo's working tree, drives it with
generated cases, writes /verif/evidence/<PROPERTY>.json.

exit 0: the property held on everything explored
exit 1: a line "VIOLATION property=<id> replay=<path>"
exit 2: the check could not be run (build failure, internal error)
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CCL_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
import checks as C

SAN = ["-fsanitize=address,signed-integer-overflow,return,float-cast-overflow", "-fno-sanitize-recover=all"]
COMMON = ["-std=c++20", "-O1", "-g1", "-w", "-fno-omit-frame-pointer",
          "-DCMP_CONFIG_DESKTOP_GUI_PACKAGE_EXCLUDED=true"]
INCL = ["-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(REPO, "api/include"),
        "-I" + os.path.join(REPO, "api/src")]
ENV_SAN = {
    "ASAN_OPTIONS": "detect_leaks=0:hard_rss_limit_mb=3000:max_allocation_size_mb=2000:abort_on_error=0:exitcode=1:"
                    "detect_stack_use_after_return=1:handle_segv=1:detect_container_overflow=1",
    "UBSAN_OPTIONS": "print_stacktrace=0",
    "LC_ALL": "C",
}


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = sorted(p for p in glob.glob(root + "/**/*", recursive=True) if os.path.isfile(p))
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_all(jobs):
    """jobs: list of (cmd). Run in parallel; returns error text or None."""
    with ThreadPoolExecutor(8) as ex:
        for r, cmd in zip(ex.map(lambda c: sh(c), jobs), jobs):
            if r.returncode:
                return " ".join(cmd) + "\n" + r.stdout[:6000]
    return None


LIB_TUS = ["core", "unicode", "io"]


def build(prop, spec, flavour):
    """flavour: 'san' (g++ with sanitizers) or 'fuzz' (clang++ libFuzzer)."""
    src = [os.path.join(HERE, "harness", s) for s in spec.get("sources", [prop + ".cpp"])]
    h = tree_hash([os.path.join(REPO, "api/include"), os.path.join(REPO, "api/src"), os.path.join(HERE, "engine")] + src + [os.path.join(HERE, "harness", s) for s in spec.get("includes", [])])
    h.update(repr((spec, flavour, SAN, COMMON)).encode())
    out = os.path.join(BUILD, f"{prop}-{flavour}-{h.hexdigest()[:20]}")
    exe = os.path.join(out, "harness")
    if os.path.exists(exe):
        return exe, None
    os.makedirs(BUILD, exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, f"{prop}-{flavour}-" + "?" * 20)):
        shutil.rmtree(old, ignore_errors=True)
    tmp = out + f".tmp{os.getpid()}"
    os.makedirs(tmp)
    cxx = spec.get("cxx", "g++") if flavour.startswith("san") else "clang++"
    if not shutil.which(cxx) and shutil.which(cxx + "-18"):
        cxx += "-18"
    # what the repository's own build compiles with (libstdc++ and default options) stays; only sanitizers are added
    san = spec.get("san", SAN) + ["-ftrivial-auto-var-init=pattern"] if flavour.startswith("san") else ["-fsanitize=fuzzer,address", "-DPBT_FUZZ", "-Wno-everything"]
    extra = [x.replace("{REPO}", REPO).replace("{HERE}", HERE) for x in spec.get("cflags", [])]
    ld = spec.get("ldflags", [])
    gui = spec.get("gui", False)
    common = [x for x in COMMON if not (gui and "DESKTOP_GUI" in x)]
    pk = []
    pkl = []
    if gui:
        pk = sh(["pkg-config", "--cflags", "gtk4"]).stdout.split()
        pkl = sh(["pkg-config", "--libs", "gtk4"]).stdout.split()
    err = None
    # header-only first; a tree that only works compiled is checked compiled
    for mode in (["header-only", "compiled"] if not spec.get("mode") else [spec["mode"]]):
        objs, jobs = [], []
        md = ["-DCMP_CONFIG_HEADER_ONLY=" + ("true" if mode == "header-only" else "false")]
        base = [cxx] + common + san + md + extra + INCL + pk
        for s in src:
            o = os.path.join(tmp, os.path.basename(s) + ".o")
            objs.append(o)
            jobs.append(base + ["-c", s, "-o", o])
        if mode == "compiled":
            lsan = [x for x in san if x != "-DPBT_FUZZ"]
            lsan = [x.replace("fuzzer,", "fuzzer-no-link,") for x in lsan]
            for tu in LIB_TUS + (["desktop_gui"] if gui else []):
                o = os.path.join(tmp, tu + ".lib.o")
                objs.append(o)
                jobs.append([cxx] + common + lsan + md + extra + INCL + pk +
                            ["-c", os.path.join(REPO, "api/src/cmp", tu, "definitions.cpp"), "-o", o])
        err = compile_all(jobs)
        if err is None:
            link = [cxx] + [x for x in san if not x.startswith("-D")] + objs + ["-o", os.path.join(tmp, "harness"), "-pthread"] + ld
            err = compile_all([link])
            if err is not None and pkl:
                err = compile_all([link + pkl])
        if err is None:
            break
        first_err = err
    if err is not None:
        shutil.rmtree(tmp, ignore_errors=True)
        return None, err
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe, None


def parse_summary(path):
    d = {"labels": {}, "samples": [], "unconfirmed": []}
    if not os.path.exists(path):
        return None
    for line in open(path, errors="replace"):
        line = line.rstrip("\n")
        k, _, v = line.partition(" ")
        if k == "label":
            n, _, name = v.partition(" ")
            d["labels"][name] = int(n)
        elif k == "sample":
            d["samples"].append(v)
        elif k == "unconfirmed":
            d["unconfirmed"].append(v)
        else:
            d[k] = v
    return d


def run_fuzz(prop, spec, seed, scratch, exe_san, runs, env):
    """Coverage-guided search with libFuzzer over the same property; fixed run counts."""
    exe, err = build(prop, spec, "fuzz")
    if exe is None:
        print("note: the coverage-guided build failed, only generated cases were used\n" + err[:2000])
        return {"runs": 0}, None
    procs = []
    n = min(8, spec.get("max_workers", 8))
    for i in range(n):
        corpus = os.path.join(scratch, f"corpus{i}")
        art = os.path.join(scratch, f"art{i}")
        os.makedirs(corpus), os.makedirs(art)
        e = dict(env)
        fs = os.path.join(scratch, f"fs{i}")
        os.makedirs(fs)
        e["PBT_SCRATCH"] = fs
        log = open(os.path.join(scratch, f"fuzz{i}.log"), "wb")
        procs.append((i, subprocess.Popen(
            [exe, f"-seed={seed * 1000 + i + 1}", f"-runs={runs}", "-max_len=1024", "-len_control=20", "-rss_limit_mb=3000",
             "-timeout=60", "-detect_leaks=0", "-print_final_stats=1", f"-artifact_prefix={art}/", corpus],
            stdout=log, stderr=log, env=e, cwd=fs)))
    total, cov = 0, 0
    crash = None
    for i, p in procs:
        p.wait()
        txt = open(os.path.join(scratch, f"fuzz{i}.log"), errors="replace").read()
        m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", txt)
        total += int(m[-1]) if m else 0
        m = re.findall(r"cov: (\d+)", txt)
        cov = max(cov, int(m[-1]) if m else 0)
        arts = [a for a in glob.glob(os.path.join(scratch, f"art{i}", "*")) if os.path.basename(a).startswith(("crash", "timeout", "oom"))]
        if arts and crash is None:
            crash = arts[0]
    return {"runs": total, "edges": cov}, crash


def merge(a, b):
    r = dict(b)
    for k in ("evaluations", "distinct", "draws", "nontrivial"):
        r[k] = int(a.get(k, 0)) + int(b.get(k, 0))
    r["labels"] = {k: a["labels"].get(k, 0) + b["labels"].get(k, 0) for k in sorted({*a["labels"], *b["labels"]})}
    r["samples"] = a["samples"][:4] + b["samples"][:4]
    r["unconfirmed"] = a["unconfirmed"] + b["unconfirmed"]
    return r


def write_evidence(a, seed, t0, coverage, violations, spec, **more):
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": coverage,
          "wall_s": round(time.time() - t0, 2), "assumptions": C.ASSUMPTIONS + spec.get("assumptions", []), "violations": violations}
    ev.update(more)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--scale", type=float, default=None)
    ap.add_argument("--no-fuzz", action="store_true")
    a = ap.parse_args()
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.scale is None:
        a.scale = 2.0 if a.tier == "quick" else 1.0 # a check may take 900 s; the quick ones take 20 to 40
    spec = C.CHECKS[a.prop]
    t0 = time.time()
    env = dict(os.environ)
    env.update(ENV_SAN)
    env["CCL_REPO"] = REPO
    # listed findings: the harness is told which it may meet; what else fails is a violation
    known = {}
    env["PBT_KNOWN"] = ""
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\w+) id=(\S+) (.*)", line)
            if m:
                env["PBT_KNOWN"] = (env.get("PBT_KNOWN", "") + " " + m.group(2)).strip() # also where W05 runs the same cases
            if m and m.group(1) == a.prop:
                known[m.group(2)] = m.group(3)
    scratch = tempfile.mkdtemp(prefix=f"ccl-{a.prop}-")
    os.chmod(scratch, 0o755)
    try:
        if "pre" in spec:
            aux, complaint = spec["pre"](sys.modules[__name__], spec, scratch)
            if aux is None:
                print(complaint)
                if not complaint.startswith("the library builds only"):
                    return 2
                os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                rp = os.path.join(HERE, "replays", a.prop + "-build.txt")
                with open(rp, "w") as f:
                    f.write(complaint)
                write_evidence(a, seed, t0, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the library builds in every mode", "samples": [complaint[:300]]}, 1, spec)
                print(f"VIOLATION property={a.prop} replay={rp}")
                return 1
            env["PBT_AUX"] = aux
        # a check with several modes runs its cases, in equal parts, with the library built in each of them
        modes = spec.get("modes", [None])
        # (a mode may be followed by settings of the library)
        def build_mode(m):
            if not m:
                return build(a.prop, spec, "san")
            mode, *settings = m.split()
            name = "-".join(["san", mode] + [x.split("=")[-1] for x in settings])
            return build(a.prop, dict(spec, mode=mode, cflags=spec.get("cflags", []) + settings), name)
        with ThreadPoolExecutor(4) as ex:
            built = list(ex.map(build_mode, modes))
        modes = [m for m, (x, _) in zip(modes, built) if x]
        exes = [x for x, _ in built if x]
        if not exes:
            print("the harness does not build against this tree:\n" + built[0][1])
            return 2
        build_s = time.time() - t0
        if a.replay:
            rcs = [subprocess.run([x, "--replay", a.replay, "--scratch", scratch], env=env, cwd=scratch).returncode for x in exes]
            return 1 if 1 in rcs else max(rcs)
        s = None
        for k, exe in enumerate(exes):
            out = os.path.join(scratch, "summary")
            cmd = [exe, "--seed", str(seed + 7919 * k), "--scratch", scratch, "--out", out, "--replay-dir", os.path.join(HERE, "replays"),
                   "--scale", str(a.scale / len(exes))]
            if a.tier == "thorough":
                cmd.append("--thorough")
            rc = subprocess.run(cmd, env=env, cwd=scratch).returncode
            one = parse_summary(out)
            if one is None or rc not in (0, 1):
                print("the harness ended without a summary, status", rc)
                return 2
            if len(exes) > 1:
                one["labels"]["library built " + modes[k]] = int(one.get("evaluations", 0))
            s = one if s is None else merge(s, one)
            os.remove(out)
            if rc == 1:
                break
        fuzz, fuzz_violation = None, False
        if a.tier == "thorough" and rc == 0 and spec.get("fuzz_runs") and not a.no_fuzz:
            fuzz, crash = run_fuzz(a.prop, spec, seed, scratch, exe, max(1, int(spec["fuzz_runs"] * a.scale)), env)
            if crash:
                rc2 = subprocess.run([exe, "--bytes", crash, "--scratch", scratch, "--thorough", "--replay-dir",
                                      os.path.join(HERE, "replays")], env=env, cwd=scratch).returncode
                if rc2 == 1:
                    rc, fuzz_violation = 1, True
        cov = {
            "evaluations": int(s.get("evaluations", 0)) + (fuzz["runs"] if fuzz else 0),
            "distinct_nontrivial": int(s.get("distinct", 0)),
            "rule": s.get("rule", ""),
            "samples": s["samples"][:8],
            "generated_cases": int(s.get("evaluations", 0)),
            "choices_drawn": int(s.get("draws", 0)),
            "nontrivial": int(s.get("nontrivial", 0)),
            "classes": s["labels"],
            "build_s": round(build_s, 1),
        }
        if fuzz:
            cov["coverage_guided_runs"] = fuzz["runs"]
            cov["coverage_guided_edges"] = fuzz.get("edges", 0)
        if s["unconfirmed"]:
            cov["unconfirmed_candidates"] = s["unconfirmed"][:10]
            print("note: candidates that did not fail again when replayed:", s["unconfirmed"][:3])
        more = {}
        if "violation" in s:
            more["violation"] = {"replay": s["violation"], "message": s.get("vmsg", "")}
        write_evidence(a, seed, t0, cov, 1 if rc == 1 else 0, spec, **more)
        for k, text in known.items():
            if s["labels"].get("known: " + k):
                print(f"KNOWN-FINDING: property={a.prop} {text}")
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
