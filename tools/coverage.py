#!/usr/bin/env python3
"""coverage.py [--runs N] [PROPS]: which basic blocks of the library (stock variant, no sanitizers) no simulated run enters.

Prints one source line per block never entered by any property's search, for inspection of the generator."""
import argparse, os, pathlib, re, shutil, struct, subprocess, sys, tempfile
HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
import check
ap = argparse.ArgumentParser()
ap.add_argument("--runs", type=int, default=20000)
ap.add_argument("--variant", default="stock")
ap.add_argument("props", nargs="*")
a = ap.parse_args()
props = a.props or ["C%02d" % i for i in range(1, 23) if i != 20]
binary, _, _ = check.build(["stock"])
w = pathlib.Path(tempfile.mkdtemp(prefix="cov-"))
try:
    (w / "pcs.c").write_text("void __sanitizer_cov_pcs_init(const unsigned long *a, const unsigned long *b) { }\n")
    flags = [f for f in check.BASE if "sanitize" not in f] + check.VARIANTS[a.variant] + ["-I" + str(check.REPO / "src"), "-I" + str(check.SIM), "-O0"]
    objs = []
    for i, f in enumerate(check.lib_sources() + [check.SIM / "shim.c", check.SIM / "shim_proc.c"]):
        objs.append(str(w / ("%d.o" % i)))
        subprocess.check_call([check.CC] + flags + ["-fsanitize-coverage=trace-pc-guard,pc-table,bb", "-c", str(f), "-o", objs[-1]])
    subprocess.check_call([check.CC, "-fPIC", "-c", str(w / "pcs.c"), "-o", str(w / "pcs.o")])
    so = w / ("lib_%s.so" % a.variant)
    subprocess.check_call([check.CC, "-shared", "-fsanitize-coverage=trace-pc-guard"] + objs + [str(w / "pcs.o"), "-o", str(so)])
    sec = subprocess.check_output(["readelf", "-SW", str(so)], text=True)
    m = re.search(r"__sancov_pcs\s+PROGBITS\s+(\w+)\s+\w+\s+(\w+)", sec)
    lo, n = int(m[1], 16), int(m[2], 16) // 16
    rel = {int(x[0], 16): int(x[1], 16) for x in re.findall(r"^(\w+)\s+\w+\s+R_X86_64_RELATIVE\s+(\w+)", subprocess.check_output(["readelf", "-rW", str(so)], text=True), re.M)}
    pcs = [rel.get(lo + 16 * i, 0) for i in range(n)]
    seen = {}
    for p in props:
        subprocess.run([str(binary), "explore", "--lib", str(w), "--prop", p, "--seed", "1", "--runs", str(a.runs), "--seconds", "200", "--workers", "8", "--no-shrink", "--replay-dir", str(w)],
                       env=dict(os.environ, SIM_EDGES=str(w / "e")), stdout=subprocess.DEVNULL)
        e = {int(x) for x in (w / "e").read_text().split()}
        for x in e:
            seen.setdefault(x, []).append(p)
        print(p, len(e), "of", n, flush=True)
    miss = [i for i in range(1, n + 1) if i not in seen]
    few = [i for i in range(1, n + 1) if len(seen.get(i, [])) == 1]
    def where(ids):
        r = subprocess.run(["llvm-symbolizer-18", "--obj=" + str(so), "--no-inlines"] + ["0x%x" % pcs[i - 1] for i in ids], stdout=subprocess.PIPE, text=True).stdout
        return [b.split("\n") for b in r.strip().split("\n\n")] if ids else []
    print("%d blocks, %d never entered:" % (n, len(miss)))
    for b in where(miss):
        loc = b[1].split("/repo/")[-1] if len(b) > 1 else "?"
        m = re.match(r"(src/.*):(\d+):\d+$", loc)
        text = (check.REPO / m[1]).read_text().splitlines()[int(m[2]) - 1].strip() if m else ""
        if "USH_ASSERT" not in text:
            print("   ", b[0], loc, text)
finally:
    shutil.rmtree(w)
