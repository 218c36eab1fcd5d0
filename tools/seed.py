#!/usr/bin/env python3
"""seed.py ID...: confirm planted bugs in a scratch copy (builds, stable tests pass, demo 0/nonzero) and run the property's check on it."""
import json, os, pathlib, re, shutil, subprocess, sys, tempfile
HERE = pathlib.Path(__file__).resolve().parent.parent
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def note_result(id, prop, rc, lines):
    f = HERE / "tools/seed/results.json"
    d = json.loads(f.read_text()) if f.exists() else {}
    run = next((m.group(1) for l in lines for m in [re.search(r"at run (\d+)", l)] if m), "")
    what = next((l[len("violation: "):].split(" (shell")[0] for l in lines if l.startswith("violation: ")), "")
    d.setdefault(id, {})[prop] = {"rc": rc, "run": run, "what": what}
    f.write_text(json.dumps(d, indent=0, sort_keys=True) + "\n")
def one(id, check=True, seed="1"):
    d = HERE / "seeded" / id
    meta = json.loads((d / "meta.json").read_text())
    w = pathlib.Path(tempfile.mkdtemp(prefix="seed-%s-" % id))
    repo = w / "repo"
    try:
        sh("git clone -q /repo %s" % repo)
        r0 = sh("bash %s/demo.sh" % d, cwd=repo)
        a = sh("git apply %s/patch.diff" % d, cwd=repo)
        if a.returncode: return id, "patch does not apply: " + a.stdout
        # removed lines must be lines of the base commit
        notes = []
        f = None; n = 0
        for ln in (d / "patch.diff").read_text().splitlines():
            m = re.match(r"--- a/(.*)", ln)
            if m: f = m.group(1); continue
            m = re.match(r"@@ -(\d+)", ln)
            if m: n = int(m.group(1)); continue
            if ln.startswith("-"):
                b = sh("git blame -s -L %d,%d HEAD -- %s" % (n, n, f), cwd=repo).stdout
                if not b.startswith("^") and not b.startswith("b2c2084"): notes.append("line %s:%d is ours: %s" % (f, n, b.strip()[:90]))
                n += 1
            elif ln.startswith(" "): n += 1
        b = sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/build.sh; bash %s/build.sh" % (repo, w, w))
        if b.returncode: return id, "does not build: " + b.stdout[-800:]
        sh("find %s/_build -name '*.gcda' -delete" % repo)
        sh("python3 /opt/vp/run_tests.py %s/_build %s/vp.txt; python3 /opt/vp/results.py %s/out.json lines:%s/vp.txt" % (repo, w, w, w))
        out = json.loads((w / "out.json").read_text())
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base.get("stable_passed") or list(base)
        miss = [t for t in stable if t not in out["passed"]]
        r1 = sh("bash %s/demo.sh" % d, cwd=repo)
        res = "tests %d/%d demo %d/%d" % (len(stable) - len(miss), len(stable), r0.returncode, r1.returncode)
        if miss: res += " FAILING TESTS %s" % miss[:4]
        if r0.returncode: res += "\n  demo on clean: " + r0.stdout[-1500:]
        if r1.returncode in (98, 99): res += "\n  demo: " + r1.stdout[-800:]
        if check:
            env = dict(os.environ, SIM_REPO=str(repo), SIM_BUILD=str(w / "build"), VERIF_SEED=seed)
            props = sys.argv[sys.argv.index("--props") + 1].split(",") if "--props" in sys.argv else [meta["property"]]
            for p in props:
                c = sh("python3 %s/check.py %s" % (HERE, p), env=env)
                v = [l for l in c.stdout.splitlines() if l.startswith(("violation", "found", "VIOLATION", "failures"))]
                note_result(id, p, c.returncode, v)
                res += "\n  check %s rc=%d %s" % (p, c.returncode, " | ".join(v)[:400] or c.stdout[-300:])
        return id, res + ("\n  " + "; ".join(notes) if notes else "")
    finally:
        shutil.rmtree(w)
if __name__ == "__main__":
    for a in sys.argv[1:]:
        if re.match(r"C\d\d-", a) and not (HERE / "seeded" / a).is_dir(): sys.exit("no " + a)
    ids = [a for a in sys.argv[1:] if (HERE / "seeded" / a).is_dir()] or sorted(p.name for p in (HERE / "seeded").iterdir() if p.is_dir())
    for i in ids: print("%s: %s" % one(i, "--nocheck" not in sys.argv), flush=True)
