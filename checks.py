"""Per-property build and run settings of check.py."""
ASSUMPTIONS = ["x86-64 Linux, g++ 13, little endian host", "single-threaded use of each object"]
NOT_APPLICABLE = {}
NOFORT = ["-U_FORTIFY_SOURCE"]
# wchar_t of 16 bits, with the string classes instantiated for it and without the C library's functions for 32-bit ones
SHORT_WIDE = NOFORT + ["-fshort-wchar", "-fno-builtin", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
WIDE = ["wmemcpy", "wmemmove", "wmemset", "wmemcmp", "wmemchr", "wcslen"]


MACOS = ["-x", "objective-c++", "-fobjc-runtime=gcc", "-D__APPLE__", "-D__MACH__", "-I{HERE}/engine/mac", "-I{HERE}/harness", "-idirafter", "/usr/lib/gcc/x86_64-linux-gnu/13/include"]


def WRAP(*names):
    return ["-Wl,--wrap=" + n for n in names]


def build_variants(k, spec, scratch):
    """H01: the same program with the library header-only and compiled, optimised and not. Returns (paths, complaint)."""
    import os, shutil
    src = os.path.join(k.HERE, "harness", "H01_lib.cpp")
    h = k.tree_hash([os.path.join(k.REPO, "api/include"), os.path.join(k.REPO, "api/src"), src, os.path.join(k.HERE, "checks.py")])
    out = os.path.join(k.BUILD, "H01-aux-" + h.hexdigest()[:20])
    variants = [("header-only-O0", True, "-O0", "g++"), ("header-only-O2", True, "-O2", "g++"), ("compiled-O2", False, "-O2", "g++"), ("compiled-O0", False, "-O0", "g++")]
    clang = shutil.which("clang++-18") or shutil.which("clang++")
    if clang:
        variants += [("header-only-clang", True, "-O3", clang), ("compiled-clang", False, "-O1", clang)]
    libs = [os.path.join(out, n + ".so") for n, _, _, _ in variants]
    if os.path.exists(os.path.join(out, "complete")):
        return ":".join(x for x in libs if os.path.exists(x)), None
    import glob
    for old in glob.glob(os.path.join(k.BUILD, "H01-aux-*")):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(out)
    jobs, links = [], []
    for name, ho, opt, cxx in variants:
        base = [cxx, "-std=c++20", opt, "-g1", "-w", "-fPIC", "-fvisibility=hidden"] + ["-fno-gnu-unique"] * (cxx == "g++") + ["-DCMP_CONFIG_DESKTOP_GUI_PACKAGE_EXCLUDED=true",
                "-DCMP_CONFIG_HEADER_ONLY=" + ("true" if ho else "false")] + k.INCL
        objs = []
        for s in [src] + ([] if ho else [os.path.join(k.REPO, "api/src/cmp", tu, "definitions.cpp") for tu in k.LIB_TUS]):
            o = os.path.join(out, name + "-" + s.replace("/", "_") + ".o")
            jobs.append((name, base + ["-c", s, "-o", o]))
            objs.append(o)
        links.append((name, ["g++", "-shared", "-Wl,-Bsymbolic", "-Wl,-z,defs"] + objs + ["-o", os.path.join(out, name + ".so"), "-pthread"]))
    from concurrent.futures import ThreadPoolExecutor
    bad = {}
    for stage in (jobs, links):
        with ThreadPoolExecutor(8) as ex:
            for (name, cmd), r in zip(stage, ex.map(lambda j: k.sh(j[1]), stage)):
                if r.returncode:
                    bad.setdefault(name, " ".join(cmd) + "\n" + r.stdout[:3000])
    for o in glob.glob(os.path.join(out, "*.o")):
        os.remove(o)
    for n in [n for n in bad if "clang" in n]: # H02 decides whether it builds with Clang
        del bad[n]
    if bad:
        text = "\n".join(n + ": " + e for n, e in bad.items())
        kinds = {n.split("-O")[0] for n in bad}
        shutil.rmtree(out, ignore_errors=True)
        if len(kinds) == 1:
            return None, "the library builds only " + ("compiled" if "header-only" in kinds else "header-only") + "\n" + text
        return None, text
    open(os.path.join(out, "complete"), "w").close()
    return ":".join(x for x in libs if os.path.exists(x)), None


def tsan():
    """The thread sanitizer of this compiler needs a layout of memory that not every kernel setting gives."""
    try:
        if int(open("/proc/sys/vm/mmap_rnd_bits").read()) > 28:
            return []
    except (OSError, ValueError):
        pass
    return ["-fsanitize=thread"]


def build_library(k, spec, scratch):
    """H02: the compiled library's objects, and what its programs are built with."""
    import os, shutil
    out = os.path.join(scratch, "library")
    os.makedirs(out)
    objs, jobs = [], []
    gtk = " ".join(k.sh(["pkg-config", "--cflags", "gtk4"]).stdout.split())
    for tu in k.LIB_TUS:
        o = os.path.join(out, tu + ".o")
        objs.append(o)
        jobs.append(["g++", "-std=c++20", "-O0", "-w", "-DCMP_CONFIG_DESKTOP_GUI_PACKAGE_EXCLUDED=true"] + k.INCL[1:] + ["-c", os.path.join(k.REPO, "api/src/cmp", tu, "definitions.cpp"), "-o", o])
    err = k.compile_all(jobs)
    if err:
        return None, err
    # the dynamic library, as the repository's build makes it
    exports = os.path.join(out, "exports")
    os.makedirs(exports)
    open(os.path.join(exports, "cmp_export.hpp"), "w").write('#define CMP_EXPORT __attribute__((visibility("default")))\n#define CMP_NO_EXPORT __attribute__((visibility("hidden")))\n')
    dyn = [j[:4] + ["-fPIC", "-DCMP_CONFIG_IS_STATIC=false", "-DCMP_CONFIG_IS_DYNAMIC=true", "-I" + exports] + j[4:-1] + [j[-1][:-2] + ".pic.o"] for j in jobs]
    err = k.compile_all(dyn) or k.compile_all([["g++", "-shared"] + [j[-1] for j in dyn] + ["-o", os.path.join(exports, "libcmp.so")]])
    if err:
        return None, "the library builds only as a static library\n" + err
    # without a package only the others are compiled
    err = k.compile_all([j[:4] + ["-fsyntax-only", "-DCMP_CONFIG_IO_PACKAGE_EXCLUDED=true"] + j[4:-4] + [j[-3]] for j in jobs])
    if err:
        return None, "the library builds only with all packages\n" + err
    clang = shutil.which("clang++-18") or shutil.which("clang++") or ""
    return "|".join([" " + " ".join(objs), " " + " ".join(k.INCL[1:]), " " + gtk, clang, exports]), None


def build_locales(k, spec, scratch):
    """L01: locales whose letters, digits or punctuation differ from those of the C locale."""
    import os, shutil
    out = os.path.join(scratch, "locales")
    os.makedirs(out)
    tool = shutil.which("localedef")
    if tool:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda l: k.sh([tool, "-c", "-f", l[1], "-i", l[0], os.path.join(out, l[0] + "." + l[1])]),
                        [("tr_TR", "ISO-8859-9"), ("tr_TR", "UTF-8"), ("de_DE", "ISO-8859-1"), ("fa_IR", "UTF-8"), ("hi_IN", "UTF-8"), ("lt_LT", "ISO-8859-13"), ("ru_RU", "KOI8-R"), ("ja_JP", "EUC-JP")]))
    return out + "|" + " ".join(sorted(os.listdir(out))), None


CHECKS = {
    "U01": {"fuzz_runs": 40000}, "U02": {"fuzz_runs": 40000}, "U03": {"fuzz_runs": 60000}, "U04": {"fuzz_runs": 60000},
    "U05": {"fuzz_runs": 40000}, "U06": {"fuzz_runs": 2000}, "U07": {},
    "N01": {"fuzz_runs": 60000}, "N02": {"fuzz_runs": 60000}, "N03": {"fuzz_runs": 40000}, "N04": {"fuzz_runs": 40000}, "N05": {"fuzz_runs": 40000}, "N06": {"fuzz_runs": 40000},
    "R01": {"fuzz_runs": 40000}, "R02": {"fuzz_runs": 40000}, "R03": {"fuzz_runs": 40000}, "R04": {"fuzz_runs": 30000},
    "F01": {"fuzz_runs": 10000}, "F02": {"fuzz_runs": 10000}, "F03": {"fuzz_runs": 10000},
    "F04": {"fuzz_runs": 10000, "cflags": NOFORT, "ldflags": WRAP("read", "write")},
    "F05": {"fuzz_runs": 5000, "cflags": NOFORT, "ldflags": WRAP("close")},
    "F06": {"fuzz_runs": 5000},
    "S01": {"fuzz_runs": 20000}, "S02": {"fuzz_runs": 20000}, "S03": {"fuzz_runs": 20000}, "S04": {"fuzz_runs": 20000},
    "S05": {"fuzz_runs": 20000}, "S06": {"fuzz_runs": 10000}, "S07": {"fuzz_runs": 10000}, "S08": {"fuzz_runs": 10000},
    "C01": {"fuzz_runs": 60000},
    "T01": {"fuzz_runs": 5000}, "E01": {"fuzz_runs": 20000},
    "G01": {"gui": True, "mode": "compiled"},
    "G02": {"gui": True, "mode": "compiled"},
    "A01": {},
    "L01": {"pre": build_locales, "cflags": ["-I{HERE}/harness"], "includes": ["H01_lib.cpp"],
            "technique": "property-based testing: metamorphic comparison of generated programs over locales, with shrinking"},
    "B01": {"modes": ["header-only", "compiled", "header-only -DCMP_CONFIG_DEFAULT_BUFFER_CAPACITY=0", "compiled -DCMP_CONFIG_DEFAULT_BUFFER_CAPACITY=13 -DCMP_CONFIG_DEFAULT_STDOUT_BUFFER_CAPACITY=5 -DCMP_CONFIG_DEFAULT_STDERR_BUFFER_CAPACITY=0 -DCMP_CONFIG_DEFAULT_STDIN_BUFFER_CAPACITY=3"]},
    "H01": {"pre": build_variants, "ldflags": ["-ldl"],
            "technique": "property-based testing: differential comparison of generated programs over several builds of the library, with shrinking"},
    "P01": {"modes": ["header-only", "compiled"], "san": tsan(), "cflags": ["-DCCL_THREADS", "-I{HERE}/harness"], "includes": ["H01_lib.cpp"],
            "technique": "property-based testing: generated programs run by several threads under the thread sanitizer, against their results one after another, with shrinking"},
    "H02": {"pre": build_library, "technique": "property-based testing: generated programs, built and run, with shrinking"},
    "W01": {"fuzz_runs": 5000, "platform": "windows", "cflags": NOFORT + ["-D__WINDOWS__", "-DCCL_WIN_SMALL_DWORD", "-I{HERE}/engine/win", "-I{HERE}/harness"], "ldflags": WRAP("close"), "includes": ["F01.cpp", "F02.cpp", "F03.cpp", "F05.cpp", "F06.cpp"]},
    "W02": {"fuzz_runs": 5000, "modes": ["header-only", "compiled", "header-only -DCMP_CONFIG_DEFAULT_BUFFER_CAPACITY=0", "compiled -DCMP_CONFIG_DEFAULT_BUFFER_CAPACITY=7"], "platform": "windows", "cflags": NOFORT + ["-D__WINDOWS__", "-DCCL_WIN_SMALL_DWORD", "-I{HERE}/engine/win"]},
    "W03": {"gui": True, "mode": "compiled", "platform": "windows", "cflags": ["-D__WINDOWS__", "-I{HERE}/engine/win", "-I{HERE}/harness"], "includes": ["G01.cpp"]},
    "W04": {"gui": True, "mode": "compiled", "platform": "windows", "cflags": SHORT_WIDE + ["-D__WINDOWS__", "-I{HERE}/engine/win", "-I{HERE}/harness"], "ldflags": WRAP(*WIDE), "includes": ["G02.cpp"]},
    "W05": {"fuzz_runs": 10000, "cflags": SHORT_WIDE + ["-I{HERE}/harness"], "ldflags": WRAP(*WIDE),
            "includes": ["U01.cpp", "U02.cpp", "U03.cpp", "U04.cpp", "U05.cpp", "N01.cpp", "N02.cpp", "S02.cpp", "S03.cpp", "S04.cpp"]},
    "M01": {"gui": True, "mode": "compiled", "platform": "macos", "cxx": "clang++", "cflags": MACOS, "ldflags": ["-lobjc"], "includes": ["G01.cpp"]},
    "M02": {"gui": True, "mode": "compiled", "platform": "macos", "cxx": "clang++", "cflags": MACOS, "ldflags": ["-lobjc"], "includes": ["G02.cpp"]},
    "O01": {"modes": ["header-only", "compiled", "header-only -DCMP_CONFIG_DEFAULT_BUFFER_CAPACITY=0", "compiled -DCMP_CONFIG_DEFAULT_BUFFER_CAPACITY=7"], "cflags": NOFORT, "ldflags": WRAP("read", "write")},
}
