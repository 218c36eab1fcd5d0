#!/usr/bin/env python3
"""selftest.py [determinism] [reverts] [refactors]: checks of the checks, in scratch copies under the temporary directory.

determinism  the same run has the same event hash in another process, in another order and with another number of workers
reverts      undoing a fix: commit is reported by the check of the property that known-findings.txt names
refactors    edits that keep the behaviour (tools/refactors.py, and a comment and a no-op in every file) are not reported by any check
"""
import importlib.util, json, os, pathlib, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = pathlib.Path(__file__).resolve().parent.parent
PROPS = ["C%02d" % i for i in range(1, 23)]


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def check(prop, repo, build, runs=None):
    env = dict(os.environ, SIM_REPO=str(repo), SIM_BUILD=str(build))
    if runs:
        env["SIM_RUNS"] = str(runs)
    r = sh("python3 %s/check.py %s" % (HERE, prop), env=env)
    return r.returncode, r.stdout


def determinism():
    bad = 0
    n = 1500
    for p in PROPS:
        def part(a):
            return sh("python3 %s/check.py sim hash --prop %s --seed 5 --runs %d --from %d" % (HERE, p, a[1], a[0])).stdout.splitlines()
        whole = part((0, n))
        with ThreadPoolExecutor(8) as ex:      # other processes, other predecessors, together
            pieces = [x for y in ex.map(part, [(i, 250) for i in range(0, n, 250)]) for x in y]
        same = whole == pieces and len(whole) == n
        print("determinism %s: %s" % (p, "%d runs equal" % n if same else "DIFFERENT " + str([(a, b) for a, b in zip(whole, pieces) if a != b][:2])), flush=True)
        bad += not same
    return bad


def reverts():
    bad = 0
    FIRST = {"009af8e": ["8dc45ae"]}   # later fixes of the same lines
    for m in re.finditer(r"^fixed: property=(\S+) (\S+) (.*)$", (HERE / "known-findings.txt").read_text(), re.M):
        w = pathlib.Path(tempfile.mkdtemp(prefix="selftest-"))
        try:
            sh("git clone -q /repo %s/repo" % w)
            for c in FIRST.get(m.group(2)[:7], []) + [m.group(2)]:
                r = sh("git -c user.name=x -c user.email=x@x revert --no-edit %s" % c, cwd=w / "repo")
            if r.returncode:
                print("revert %s %s: CONFLICT" % (m.group(1), m.group(2)), flush=True)
                continue
            rc, out = check(m.group(1), w / "repo", w / "build")
            what = next((x for x in out.splitlines() if x.startswith("violation: ")), out[-300:])
            print("revert %s %s: rc=%d %s" % (m.group(1), m.group(2), rc, what[:160]), flush=True)
            bad += rc != 1
        finally:
            shutil.rmtree(w)
    return bad


def apply(repo, edits):
    for f, old, new in edits:
        p = repo / f
        t = p.read_text()
        m = re.search(r"\n(?:[ \t]*\n)*".join(re.escape(x) for i, x in enumerate(old.split("\n")) if x or i == old.count("\n")), t)     # blank lines may differ
        if not m:
            raise SystemExit("%s: text to replace not found:\n%s" % (f, old))
        p.write_text(t[:m.start()] + new + t[m.end():])


def refactors():
    spec = importlib.util.spec_from_file_location("refactors", HERE / "tools/refactors.py")
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sets = dict(mod.SETS, noop=None)
    want = [a for a in sys.argv[2:] if a in sets] or list(sets)
    bad = 0
    for name in want:
        w = pathlib.Path(tempfile.mkdtemp(prefix="selftest-"))
        try:
            repo = w / "repo"
            sh("git clone -q /repo %s" % repo)
            if sets[name] is None:
                for f in sorted((repo / "src").rglob("*.c")):
                    t = f.read_text()
                    t = re.sub(r"(\n\{\n)((?:.*\n)*?)(\})", r"\1        (void)0;\n\2\3", t)
                    f.write_text(t + "\n/* nothing */\n")
            else:
                apply(repo, sets[name])
            b = sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/build.sh; bash %s/build.sh" % (repo, w, w))
            sh("python3 /opt/vp/run_tests.py %s/_build %s/vp.txt; python3 /opt/vp/results.py %s/out.json lines:%s/vp.txt" % (repo, w, w, w))
            tests = "tests do not build: " + b.stdout[-400:]
            if not b.returncode:
                base = json.load(open("/opt/vp/BASELINE.json"))
                stable = base.get("stable") or base.get("passed") or base.get("stable_passed") or list(base)
                out = json.loads((w / "out.json").read_text())
                tests = "tests failing: %s" % [t for t in stable if t not in out["passed"]][:6]
            print("refactoring %s: %s" % (name, tests), flush=True)
            for p in PROPS:
                rc, out = check(p, repo, w / "build", os.environ.get("SELFTEST_RUNS"))
                if rc or "failures that" in out:
                    print("refactoring %s %s: rc=%d %s" % (name, p, rc, out[-700:]), flush=True)
                    bad += rc != 0
                    if rc == 1 and "--keep" in sys.argv:
                        for f in (w / "build").glob("*.plan"):
                            shutil.copy(f, "/tmp")
            print("refactoring %s: done" % name, flush=True)
        finally:
            shutil.rmtree(w)
    return bad


if __name__ == "__main__":
    todo = [a for a in sys.argv[1:] if a in ("determinism", "reverts", "refactors")] or ["determinism", "reverts", "refactors"]
    bad = sum({"determinism": determinism, "reverts": reverts, "refactors": refactors}[t]() for t in todo)
    print("selftest: %s" % ("passed" if not bad else "%d FAILED" % bad))
    sys.exit(1 if bad else 0)
