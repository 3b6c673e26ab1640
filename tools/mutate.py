#!/usr/bin/env python3
"""mutate.py OUT.jsonl N SEED [FILE-REGEX]

Environment: MUT_SCALE, MUT_WORKERS, MUT_ALL (go on after the first check that reports), MUT_CHECKS (these checks only),
MUT_LINES (FROM-TO), MUT_KIND=types (narrower types instead of other operators).

Measures the checks: makes small random changes to copies of the library and runs the
checks that concern the changed file against each. Nothing in /repo or /verif is touched;
everything lives in a scratch directory that is removed at the end.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from threading import local
import queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MAP = [
    (r"io/impl/windows/.*file", "W01"),
    (r"io/impl/windows", "W02"),
    (r"desktop_gui/impl/windows", "W03 W04"),
    (r"desktop_gui/impl/macos", "M01 M02"),
    (r"unicode/(algorithms|constants)", "U01 U03 U04 U05 U06 H01 W05 A01"),
    (r"unicode/(impl/impl|by_code_point)", "U01 U02 U03 U05 S05 W05 E01"),
    (r"unicode/examiners", "U01 U03 U04 U06 N02 S03 L01"),
    (r"unicode/(formats)", "N06 N01 N02 N03 N04 N05 S06"),
    (r"unicode/(formatters)", "N01 N03 N05 S06 H01"),
    (r"unicode/(parsers)", "N02 N04 N05 S06 E01 H01"),
    (r"unicode/(type_traits|concepts)", "U07 U01"),
    (r"unicode/", "U01 U03 N02 E01"),
    (r"io/.*(uio|uin|uout)", "O01 B01"),
    (r"io/.*ctr_essence|io/.*container", "R01 R02 R04 F06 S07 S01 S02 S03 S04"),
    (r"io/.*file", "F01 F02 F03 F04 F05 F06 S04"),
    (r"io/(data)", "S01 S07 S08 H01"),
    (r"io/(text)", "S02 S03 S04 S05 S06 S07 S08 O01 H01 W05 E01"),
    (r"io/(input_stream|output_stream|general|exceptions)", "S01 S02 S03 S04 S05 S08 O01 C01 E01"),
    (r"io/", "R03 B01 R01 R02 R04 F06 F01 F02 F03 F04 F05 S01 S02 S03 S04 S08 O01"),
    (r"core/test_module", "T01"),
    (r"core/type_traits", "U07 R01"),
    (r"core/", "C01 H01 H02"),
    (r"desktop_gui/", "G01 G02"),
]
SWAPS = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("+=", "-="), ("-=", "+="),
         ("++", "--"), ("--", "++"), (" + ", " - "), (" - ", " + "), (" < ", " <= "), (" > ", " >= "), ("true", "false"), ("false", "true"),
         ("cbegin", "cend"), ("begin", "end"), (" * ", " / "), (" / ", " * "), ("std::min", "std::max"), ("std::move", ""), (" & ", " | "), (" | ", " & ")]

TYPES = [("std::size_t", "unsigned short"), ("std::size_t", "unsigned char"), ("std::int64_t", "int"), ("char32_t", "char16_t"), ("long double", "double"),
         ("unsigned long long", "unsigned"), ("std::uint64_t", "unsigned"), ("std::uintmax_t", "unsigned"), ("std::intmax_t", "int"), ("position_type", "short"), ("position_type", "int"),
         ("off_t", "int"), ("ssize_t", "int"), ("unsigned int", "unsigned char"), ("double", "float"), ("auto&", "auto"), ("const auto&", "auto")]


def mutants(path, text):
    if os.environ.get("MUT_KIND") == "types":
        lines = text.split("\n")
        res = []
        for i, l in enumerate(lines):
            if re.match(r"\s*(//|#|/?\*)", l): continue
            for a, b in TYPES:
                for m in re.finditer(r"(?<![\w:])" + re.escape(a) + r"(?!\w)", l):
                    L = list(lines)
                    L[i] = l[:m.start()] + b + l[m.end():]
                    res.append((i + 1, l.strip(), L[i].strip(), "\n".join(L)))
        return res
    lines = text.split("\n")
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "@end", "#", "/*", "*", "template", "namespace", "using", "class", "public", "private", "protected", "}")) or "CMP_" in s:
            continue
        for a, b in SWAPS:
            start = 0
            while (p := l.find(a, start)) >= 0:
                start = p + len(a)
                ctx = l[max(0, p - 1):p + len(a) + 1]
                if a in ("==", "!=") and "operator" in l: continue
                if a.isalpha() and re.search(r"\w", l[p - 1:p] + l[p + len(a):p + len(a) + 1]): continue
                if a == "||" and "requires" in l: continue
                out.append((i, l[:p] + b + l[p + len(a):]))
        for m in re.finditer(r"(?<![\w.'])(\d[\d']*)(?![\w.'])", l):
            v = m.group(1).replace("'", "")
            if v.startswith("0") and len(v) > 1: continue
            for n in (int(v) + 1, int(v) - 1):
                if n >= 0: out.append((i, l[:m.start()] + str(n) + l[m.end():]))
        for m in re.finditer(r"0b[01']+|0x[0-9A-Fa-f']+", l):
            v = int(m.group(0).replace("'", ""), 0)
            out.append((i, l[:m.start()] + hex(v + 1) + l[m.end():]))
            if v: out.append((i, l[:m.start()] + hex(v - 1) + l[m.end():]))
        if re.match(r"^\s+[\w:\.\->\(\)\*\+&<>, =\[\]']+;$", l) and not re.match(r"^\s*(return|case|default|using|friend|static|const|auto|[\w:]+ \w+;)", s):
            out.append((i, re.match(r"^\s*", l).group(0) + ";"))
            out.append((i, re.match(r"^\s*", l).group(0) + ";"))
        m = re.search(r"\bif \((.*)\) \{$", l)
        if m:
            out.append((i, l[:m.start(1)] + "!(" + m.group(1) + ")" + l[m.end(1):]))
            out.append((i, l[:m.start(1)] + "false && (" + m.group(1) + ")" + l[m.end(1):]))
            out.append((i, l[:m.start(1)] + "true || (" + m.group(1) + ")" + l[m.end(1):]))
        if s == "if (":
            out.append((i, l.replace("if (", "if (!(") + "/*NEG*/"))
        if s in ("break;", "continue;", "++index;"):
            out.append((i, ";"))
        m = re.search(r"\{(\w+)\}", l)
    res = []
    for i, new in out:
        if new.endswith("/*NEG*/"):
            continue
        L = list(lines)
        L[i] = new
        res.append((i + 1, lines[i].strip(), new.strip(), "\n".join(L)))
    return res


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rx = sys.argv[4] if len(sys.argv) > 4 else "."
    scale = os.environ.get("MUT_SCALE", "0.3")
    random.seed(seed)
    files = [f for f in subprocess.check_output(["git", "-C", REPO, "ls-files", "api"], text=True).split()
             if re.search(r"\.(cpp|ipp|hpp|mm)$", f) and (re.search("windows|macos", f) is None or rx != ".") and re.search(rx, f)]
    allm = []
    for f in files:
        if f.endswith(".hpp") and "io_buffer" not in f and "constants" not in f: continue
        t = open(os.path.join(REPO, f)).read()
        lo, hi = (int(x) for x in os.environ.get("MUT_LINES", "0-1000000").split("-"))
        allm += [(f,) + m for m in mutants(f, t) if lo <= m[0] <= hi]
    print(len(allm), "candidate changes")
    random.shuffle(allm)
    # spread over files
    seen, pick = {}, []
    cap = max(3, n // min(12, len(files)))
    for m in allm:
        if seen.get(m[0], 0) < cap:
            seen[m[0]] = seen.get(m[0], 0) + 1
            pick.append(m)
        if len(pick) == n: break
    base = tempfile.mkdtemp(prefix="mut-")
    q = queue.Queue()
    W = int(os.environ.get("MUT_WORKERS", "6"))
    for w in range(W):
        d = os.path.join(base, f"w{w}")
        os.makedirs(d)
        shutil.copytree(os.path.join(REPO, "api"), os.path.join(d, "repo/api"))
        os.makedirs(d + "/verif")
        for x in ("engine", "harness", "check.py", "checks.py", "known-findings.txt"):
            s = os.path.join(HERE, x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, "verif", x))
        q.put(d)
    fo = open(out, "a")

    def run(m):
        f, line, old, new, text = m
        d = q.get()
        try:
            tgt = os.path.join(d, "repo", f)
            orig = open(tgt).read()
            open(tgt, "w").write(text)
            props = os.environ.get("MUT_CHECKS", "").split() or next(p for r, p in MAP if re.search(r, f)).split()
            res = {}
            for p in props:
                t0 = time.time()
                try:
                    r = subprocess.run([sys.executable, "check.py", p, "quick", "--scale", scale], cwd=d + "/verif",
                                       env=dict(os.environ, CCL_REPO=d + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400, text=True, errors="replace")
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                res[p] = rc
                if rc == 1 and not os.environ.get("MUT_ALL"): break
                if rc == 2:
                    res[p] = "nobuild"
                    if "does not build" in r.stdout or "builds" in r.stdout: break
            open(tgt, "w").write(orig)
            rec = {"file": f, "line": line, "old": old, "new": new, "res": res}
            fo.write(json.dumps(rec) + "\n")
            fo.flush()
        finally:
            q.put(d)
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(run, pick))
    shutil.rmtree(base)


main()
