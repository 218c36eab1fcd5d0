#!/usr/bin/env python3
"""Builds the simulator and the build variants of /repo's current sources and runs one property's check.

  check.py setup                 build everything
  check.py C07                   run the check of C07 (VERIF_SEED, VERIF_TIER)
  check.py replay FILE           replay a recorded violation
  check.py sim ARGS...           run the simulator with the libraries built
"""
import hashlib, json, os, pathlib, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("SIM_REPO", "/repo"))
SIM = HERE / "sim"
BUILD = pathlib.Path(os.environ.get("SIM_BUILD", HERE / "build"))
CC, CXX = "clang", "clang++"
JOBS = max(1, os.cpu_count() or 1)

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=function,nonnull-attribute", "-fno-sanitize-recover=all"]
BASE = ["-g", "-fPIC", "-std=gnu11", "-w", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-fsanitize-coverage=trace-pc-guard",
        '-DUSH_CONFIG_CUSTOM_FILE="sim_config.h"', "-DUSH_CONFIG_PLATFORM_POSIX"]
SIM_SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if os.environ.get("SIM_SAN") else []   # of the simulator itself (selftest.py)
FULL = ["-DSIM_ALIGN=16", "-DSIM_COLS=8"]


def only(*names):
    return ["-DSIM_%s=%d" % (c, c in names) for c in ("CAT", "CD", "ECHO", "HELP", "LS", "PWD", "XXD")]


ALLC = ("CAT", "CD", "ECHO", "HELP", "LS", "PWD", "XXD")
VARIANTS = {
    "stock": ["-DSIM_STOCK"],
    "nostyle": ["-DSIM_STYLES=0"],
    "notab": ["-DSIM_AUTOCOMP=0"],
    "nocmd": ["-DSIM_COMMANDS=0"],
    "hce": only("HELP", "CAT", "ECHO") + ["-DSIM_TRANSLATED=1", "-DSIM_ALIGN=8", "-DSIM_COLS=16"],
    "lcpx": only("LS", "CD", "PWD", "XXD") + ["-DSIM_TRANSLATED=1", "-DSIM_ALIGN=24", "-DSIM_COLS=5"],
    "arduino": ["-DSIM_STOCK", "-DSIM_USE_ARDUINO", "-DSIM_ASSERTS=0"],
    "minimal": ["-DSIM_STYLES=0", "-DSIM_AUTOCOMP=0", "-DSIM_COMMANDS=0"],
    "demo": ["-DSIM_STOCK"],
    "stack": ["-DSIM_STOCK"],
}
for _c in ALLC:
    VARIANTS["no-" + _c.lower()] = only(*[x for x in ALLC if x != _c])
    VARIANTS["only-" + _c.lower()] = only(_c)
VARIANTS["mix1"] = ["-DSIM_STYLES=0", "-DSIM_TRANSLATED=2", "-DSIM_ALIGN=1", "-DSIM_COLS=1"]
VARIANTS["mix2"] = only("LS", "HELP", "XXD") + ["-DSIM_AUTOCOMP=0", "-DSIM_TRANSLATED=2", "-DSIM_ALIGN=40", "-DSIM_COLS=32"]
VARIANTS["mix3"] = only("CAT", "XXD") + ["-DSIM_STYLES=0", "-DSIM_AUTOCOMP=0", "-DSIM_TRANSLATED=1", "-DSIM_ALIGN=17", "-DSIM_COLS=3"]
VARIANTS["mix4"] = only("LS", "CD", "ECHO", "HELP") + ["-DSIM_STYLES=0", "-DSIM_ALIGN=15", "-DSIM_COLS=12", "-DSIM_ASSERTS=0"]
SKETCHES = {"sk-basic": ("DemoBasic", []), "sk-basic128": ("DemoBasic", ["-DARDUINO_ARCH_STM32"]), "sk-adv": ("DemoAdvanced", []),
            "sk-adv128": ("DemoAdvanced", ["-DARDUINO_ARCH_STM32"]), "sk-init": ("Initialize", [])}
for _s in SKETCHES:
    VARIANTS[_s] = ["-DSIM_STOCK", "-DSIM_USE_ARDUINO"]
DEMO_DEFS = ["-D%s=sim_%s" % (f, f) for f in ("isatty", "tcgetattr", "tcsetattr", "atexit", "fgetc", "fputc", "time", "rand", "srand")]
DEMO_DEFS += ["-Dgetc=sim_fgetc", "-Dputc=sim_fputc"]

ORDER = ["nostyle", "notab", "nocmd", "hce", "lcpx", "arduino", "minimal"]
LOO = [p + c.lower() for p in ("no-", "only-") for c in ALLC] + ["mix1", "mix2", "mix3", "mix4"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def lib_sources():
    return sorted((REPO / "src").rglob("*.c"))


def demo_sources():
    d = REPO / "examples/demo_linux"
    return [f for f in sorted(d.rglob("*.c")) if f.name != "demo.c"]


def sketch_sources(v):
    d, defs = SKETCHES[v]
    d = REPO / "examples" / d
    flags = ["-x", "c++", "-std=gnu++17", "-fno-exceptions", "-fno-rtti", "-I" + str(d), "-I" + str(SIM / "arduino"), "-include", "Arduino.h"] + defs
    return [(f, flags) for f in sorted(d.iterdir()) if f.suffix in (".ino", ".cpp", ".c")] + [(SIM / "arduino" / "sketch_shim.cpp", flags)]


def tree_key(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(str(p).encode() + b"\0" + p.read_bytes() + b"\0")
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def build(variants):
    """Returns (bin, libdir, {variant: error})"""
    BUILD.mkdir(parents=True, exist_ok=True)
    repo_files = sorted(p for p in (REPO / "src").rglob("*") if p.suffix in (".c", ".h"))
    demo_files = sorted(p for p in (REPO / "examples").rglob("*") if p.suffix in (".c", ".h", ".cpp", ".ino"))
    sim_files = sorted(p for p in SIM.iterdir() if p.suffix in (".c", ".h", ".cpp", ".hpp"))
    me = pathlib.Path(__file__).read_text()
    key = tree_key(repo_files + demo_files + sorted((SIM / "arduino").iterdir()) + [SIM / "shim.c", SIM / "shim_proc.c", SIM / "sim_config.h"], me)
    libdir = BUILD / ("lib-" + key)
    libdir.mkdir(exist_ok=True)
    simkey = tree_key(sim_files, me + str(SIM_SAN))
    binary = BUILD / ("sim-" + simkey)
    jobs, errors = [], {}

    def run(cmd, what):
        r = sh(cmd)
        if r.returncode:
            return what, r.stdout[-3000:]
        return None

    with ThreadPoolExecutor(JOBS) as ex:
        pend = []
        if not binary.exists():
            objs = []
            for f in ("plan.cpp", "model.cpp", "exec.cpp", "gen.cpp", "main.cpp"):
                o = BUILD / ("%s-%s.%d.o" % (f, simkey, os.getpid()))
                objs.append(o)
                pend.append(ex.submit(run, [CXX, "-std=c++17", "-O2", "-g", "-fno-omit-frame-pointer"] + SIM_SAN + ["-c", str(SIM / f), "-o", str(o)], "simulator"))
        work = {}
        for v in variants:
            so = libdir / ("lib_%s.so" % v)
            if so.exists():
                continue
            d = libdir / ("obj-%s-%d" % (v, os.getpid()))
            d.mkdir(exist_ok=True)
            flags = list(BASE) + VARIANTS[v] + ["-I" + str(REPO / "src"), "-I" + str(SIM)]
            flags += ["-O0"] if v == "stack" else ["-O1"] + SAN
            srcs = [(f, []) for f in lib_sources()] + [(SIM / "shim.c", [])]
            srcs.append((SIM / "shim_proc.c", []))
            if v == "demo":
                dd = REPO / "examples/demo_linux"
                srcs += [(f, DEMO_DEFS + ["-I" + str(dd)]) for f in demo_sources()]
                srcs.append((SIM / "demo_shim.c", ["-I" + str(dd)]))
            if v in SKETCHES:
                srcs += sketch_sources(v)
            os_ = []
            for i, (f, ex_flags) in enumerate(srcs):
                o = d / ("%d.o" % i)
                os_.append(o)
                pend.append(ex.submit(run, [CC] + flags + ex_flags + ["-c", str(f), "-o", str(o)], "processing glue" if f.name == "shim_proc.c" else v))
            work[v] = (so, d, os_, flags)
        for p in pend:
            r = p.result()
            if r:
                errors.setdefault(r[0], r[1])
        if not binary.exists():
            if "simulator" in errors:
                raise BuildError(errors["simulator"])
            tmp = str(binary) + ".%d" % os.getpid()
            r = sh([CXX, "-fsanitize=address,undefined", "-rdynamic"] + [str(o) for o in objs] + ["-ldl", "-o", tmp])
            if r.returncode:
                raise BuildError(r.stdout)
            os.rename(tmp, binary)
            for o in objs:
                o.unlink()

        def link(v):
            so, d, os_, flags = work[v]
            if v not in errors:
                tmp = str(so) + ".%d" % os.getpid()
                fl = [] if v == "stack" else SAN
                r = sh([CC, "-shared"] + fl + ["-fsanitize-coverage=trace-pc-guard"] + [str(o) for o in os_ if o.exists()] + ["-o", tmp])
                if r.returncode:
                    errors[v] = r.stdout[-3000:]
                else:
                    os.rename(tmp, so)
            for o in d.iterdir():
                o.unlink()
            d.rmdir()
        list(ex.map(link, work))
    glue = errors.pop("processing glue", None)
    if glue:
        print("the glue for processing callbacks does not build (C22 only):\n" + glue)
    return binary, libdir, errors



# ------------------------------------------------------------------------------------------------ checks
MAIN = ["stock"] + ORDER
TIERS = {"quick": (150000, 60), "thorough": (1200000, 780)}     # simulated runs, wall clock cap (s)
PRETTY = {      # counters that are injected faults, as opposed to workload and probes
    "reads_starved_mid_input": "input gap in the middle of a line", "failed_read_clobbers_char": "failing read clobbers the character",
    "writes_refused": "output byte refused by the link", "long_stalls": "link stalled for 50 or more offers in a row",
    "resets": "reset", "resets_mid_activity": "reset in the middle of an activity", "reinits": "deinit and init again",
    "power_cycles": "power loss: new init over whatever memory contained", "junk_memory_runs": "init over arbitrary memory (runs)",
    "write_protected_runs": "constants in write-protected memory (runs)", "mounts_refused": "mount that must fail",
    "unmounts_refused": "unmount that must fail", "unmounts_of_cwd": "unmount of the current directory",
    "group_removals_refused": "removal of an unregistered group", "getter_without_data": "getter returns no data (or does not touch its output)",
    "getter_prints": "getter prints", "files_vanished": "file removed between check and transfer", "files_replaced": "file replaced by an unreadable one between check and transfer", "prints_mid_activity": "application prints in the middle of an activity",
    "formatted_overflows": "formatted text larger than the output buffer", "input_overflows": "line larger than the input buffer",
    "completions_not_fitting": "completion that does not fit", "paths_too_long": "path longer than the limit",
    "objects_reused": "memory of a removed directory or group used for the next one",
    "eof_injected": "end of file on the demo's input", "clock_changes": "system clock jumps", "actions_in_callbacks": "application acts inside a callback",
    "processings_interrupted": "processing command cut short by a reset, print or power loss", "actions_mid_activity": "application acts in the middle of an activity", "shell_switches": "service switched to another shell"}
REAL = ["all of /repo/src/src compiled from the working tree (line editor, parser, dispatcher, completion, writer, tree, groups, built-in commands)",
        "/repo/src/inc macros and configuration headers"]
STUB = ["terminal link (io->read, io->write): simulator", "application: descriptors, callbacks, texts and actions generated by the plan",
        "clock: simulator ticks; moment of every ush_service call decided by the plan", "memory handed to ush_init and malloc family: simulator"]


def demo_extra(prop):
    if prop != "C20":
        return REAL, STUB
    return (REAL + ["/repo/examples/demo_linux: shell.c, interface.c, commands.c, fs/*", "/repo/examples/DemoBasic, DemoAdvanced, Initialize: the whole sketches, setup() and loop()"],
            ["isatty, tcgetattr, tcsetattr, atexit, fgetc, getc, fputc, putc, time, rand, srand: simulator", "demo.c (main loop): the simulator services the shell", "Arduino core (Serial, digital pins, millis): simulator",
             "moment of every shell_service call, terminal bytes, end of file, clock: decided by the plan"])


def known_findings():
    out = []
    f = HERE / "known-findings.txt"
    for ln in f.read_text().splitlines() if f.exists() else []:
        m = re.match(r"finding: property=(\S+) plan=(\S+) kind=(\S+) (.*)", ln)
        if m:
            out.append(m.groups())
    return out


def evidence(prop, tier, seed, wall, d, errors, violations, extra):
    st = d.get("stat", {})
    w = max(d.get("wall", 0), 1e-9)
    real, stub = demo_extra(prop)
    cov = {
        "evaluations": d.get("runs", 0),
        "distinct_nontrivial": d.get("distinct_nontrivial", 0),
        "rule": "A case is one simulated run: a plan (configuration, build variant, tree, command groups, callbacks, input bytes with gaps, link behaviour, pacing, "
                "application actions, faults) drawn from the PRNG seeded with (property, VERIF_SEED, run index) and biased towards the property. It is non-trivial when "
                "the shell consumed input, produced output and at least one command, completion, message or recovery beyond the boot banner was checked against the model; "
                "distinct when the hash over all observable events with their times was not seen before in this batch.",
        "samples": d.get("samples", []),
        "nontrivial": d.get("nontrivial", 0),
        "seeds": {"VERIF_SEED": seed, "run_index_from": d.get("seed_from", 0), "run_index_count": d.get("runs", 0)},
        "runs_per_hour": int(d.get("runs", 0) / w * 3600), "seeds_per_hour": int(d.get("runs", 0) / w * 3600),
        "simulated_time": {"ticks": d.get("ticks", 0), "service_calls": d.get("services", 0), "unit": "one tick is the shortest pause between two service calls"},
        "faults_injected": {PRETTY[k]: v for k, v in st.items() if k in PRETTY},
        "workload": {k: v for k, v in st.items() if k not in PRETTY},
        "distinct_interleavings": {"count": d.get("distinct_schedules", 0),
                                   "measure": "different hashes of the sequence (which shell, kind of event, accepted or refused, empty or filled read) of a run"},
        "code_reached": {"edges": d.get("edges", 0), "edges_total": d.get("edges_total", 0), "measure": "compiler-inserted edges of the library, summed over the loaded build variants"},
        "runs_reaching_phase": d.get("phases", {}), "runs_per_build_variant": d.get("variants", {}), "workers": d.get("workers", 0),
        "components_real": real, "components_stubbed": stub,
        "failures_of_other_properties": d.get("foreign", {}), "not_reproduced": d.get("unstable", 0),
        "build_variants_failing": sorted(errors),
    }
    if prop == "C21":
        cov["deepest_stack_of_one_call"] = d.get("max_stack", 0)
    cov.update(extra)
    where = HERE / "evidence" if "SIM_REPO" not in os.environ else BUILD
    where.mkdir(exist_ok=True)
    (where / (prop + ".json")).write_text(json.dumps({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2), "violations": violations,
        "assumptions": ["the terminal interface behaves as documented: read returns 0 or 1, write returns 0 or 1, a byte is taken exactly when 1 is returned",
                        "callbacks and application actions are those listed in DESIGN.md (Workload)",
                        "sampling, not enumeration: what no run reached is not covered"]}, indent=1) + "\n")


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    runs, cap = TIERS[tier]
    runs = int(os.environ.get("SIM_RUNS", runs))
    variants = {"C20": ["demo"] + list(SKETCHES), "C21": ["stock", "stack"], "C19": MAIN + LOO}.get(prop, MAIN)
    if tier == "thorough" and prop not in ("C20", "C21"):
        variants = MAIN + LOO
    binary, libdir, errors = build(variants)
    base = "demo" if prop == "C20" else "stock"
    if base in errors:
        print("the library does not build:\n" + errors[base])
        return 2
    if prop == "C22" and subprocess.run(["grep", "-q", "shim_proc_start", str(libdir / "lib_stock.so")]).returncode:
        print("no processing glue")
        return 2
    if prop == "C21" and "stack" in errors:
        print(errors["stack"])
        return 2
    rep = HERE / "replays" if "SIM_REPO" not in os.environ else BUILD
    rep.mkdir(exist_ok=True)
    for v, e in errors.items():
        print("build variant %s does not build:\n%s" % (v, e))
    if prop == "C19" and errors:
        v = sorted(errors)[0]
        f = rep / ("C19-build-%s.plan" % v)
        f.write_text("# property C19: a supported configuration does not build\n#build-variant %s\n# flags: %s\n" % (v, " ".join(VARIANTS[v])) + "".join("# %s\n" % x for x in errors[v].splitlines()))
        evidence(prop, tier, seed, time.time() - t0, {}, errors, 1, {})
        print("VIOLATION property=C19 replay=%s" % f)
        return 1
    # libraries of this check only (another check of this tree may have built more)
    own = libdir / ("set-" + prop + "-" + tier)
    own.mkdir(exist_ok=True)
    for v in variants:
        l = own / ("lib_%s.so" % v)
        if v not in errors and not l.exists():
            try:
                l.symlink_to(libdir / ("lib_%s.so" % v))
            except FileExistsError:
                pass
    out = BUILD / ("stats-%s-%d.json" % (prop, os.getpid()))
    cmd = [str(binary), "explore", "--lib", str(own), "--prop", prop, "--seed", str(seed), "--runs", str(runs), "--seconds", str(cap),
           "--workers", str(JOBS), "--out", str(out), "--replay-dir", str(rep)] + (["--thorough"] if tier == "thorough" else [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True)
    text = r.stdout
    d = json.loads(out.read_text()) if out.exists() else {}
    if out.exists():
        out.unlink()
    rc = r.returncode
    violations = 0
    lines = [x for x in text.splitlines() if not x.startswith("REPLAY ")]
    print("\n".join(lines))
    m = re.search(r"^REPLAY (.*)$", text, re.M)
    if rc == 1 and m:
        # the gate: a fresh process has to reproduce the recorded history exactly
        g = subprocess.run([str(binary), "replay", "--lib", str(own), m.group(1)], stdout=subprocess.PIPE, text=True)
        if g.returncode != 1 or "reproduced exactly" not in g.stdout:
            print("the replay file does not reproduce the violation in a fresh process")
            rc = 3
        else:
            violations = 1
    for pid, plan, kind, what in known_findings():
        if pid != prop:
            continue
        g = subprocess.run([str(binary), "replay", "--lib", str(own), str(HERE / plan)], stdout=subprocess.PIPE, text=True).stdout
        v = re.search(r"^verdict: (.*)$", g, re.M)
        got = v.group(1) if v else "no verdict"
        if got.startswith(kind + " in "):
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        elif got != "holds" and rc == 0:
            print("the input of a known finding fails differently: " + got)
            rc, violations, m = 1, 1, re.match(r"(.*)", str(HERE / plan))
    evidence(prop, tier, seed, time.time() - t0, d, errors, violations, {})
    if rc == 0:
        print("%s held on %d simulated runs (%d distinct non-trivial), %.1f s" % (prop, d.get("runs", 0), d.get("distinct_nontrivial", 0), time.time() - t0))
        if os.environ.get("SIM_DEBUG"):
            print("slowest run: %d ms, seed index %d" % (d.get("slowest_ms", 0), d.get("slowest_index", 0)))
        if d.get("foreign"):
            print("failures that are not violations of this property: %s" % d["foreign"])
        return 0
    if rc == 1 and m:
        print("VIOLATION property=%s replay=%s" % (prop, m.group(1)))
        return 1
    print("the simulator ended with %d" % rc)
    return 2


def replay(path):
    text = pathlib.Path(path).read_text()
    m = re.search(r"^#build-variant (\S+)", text, re.M)
    if m:
        _, _, errors = build(["stock", m.group(1)])
        bad = m.group(1) in errors and "stock" not in errors
        print(errors.get(m.group(1), "builds"))
        print("recorded violation %s" % ("reproduced exactly" if bad else "NOT reproduced"))
        return 1 if bad else 0
    v = re.search(r"^variant (\S+)", text, re.M)
    binary, libdir, errors = build(list(VARIANTS))
    return subprocess.run([str(binary), "replay", "--lib", str(libdir), path]).returncode


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        t = time.time()
        b, l, e = build(list(VARIANTS))
        print("built in %.1f s, errors: %s" % (time.time() - t, e))
        return 1 if e else 0
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "sim":
        binary, libdir, errors = build(list(VARIANTS))
        return subprocess.run([str(binary), sys.argv[2], "--lib", str(libdir)] + sys.argv[3:]).returncode
    return check(sys.argv[1])


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("cannot build the simulator:\n%s" % e)
        sys.exit(2)
