#!/usr/bin/env python3
"""mutate.py [--n N] [--seed S] [--file REGEX] [--jobs J] [--runs R] OUT

Systematic check of the checks: small changes of /repo's sources (operators, constants, conditions, deleted statements) in scratch
copies; those that compile and pass the stable tests are run through the simulator (all properties, short searches); what no check
reports is written to OUT for inspection. Nothing in /repo is touched.
"""
import argparse, json, os, pathlib, random, re, shutil, subprocess, sys, tempfile, threading, queue, time
HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
PROPS = ["C12", "C05", "C06", "C01", "C13", "C11", "C08", "C07", "C09", "C16", "C18", "C02", "C03", "C04", "C10", "C14", "C15", "C17", "C19", "C21", "C22"]


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


RARE = ["self->in_pos == 7", "self->in_pos == 31", "self->args_count == 5", "self->args_count == 2 && self->in_pos > 20", "self->process_index == 5", "self->process_index_item == 3",
        "self->out_pos == 17", "self->out_pos > 200", "self->write_size == 33", "self->write_size > 300", "self->ansi_escape_state != 0", "self->escape_flag",
        "self->current_node != 0 && self->current_node->parent != 0 && self->current_node->parent->parent != 0",
        "self->commands != 0 && self->commands->next != 0 && self->commands->next->next != 0", "self->commands == &self->buildin_commands",
        "self->process_child_node != 0 && self->process_child_node->next == 0", "self->process_node != 0 && self->process_node->childs != 0 && self->process_node->childs->next != 0",
        "self->desc->output_buffer_size < 8", "self->desc->output_buffer_size > 500", "self->desc->path_max_length < 6", "self->desc->input_buffer_size < 5", "self->desc->input_buffer_size == 64",
        "({ static int n_; ++n_ == 40; })", "({ static int n_; ++n_ == 300; })", "({ static int n_; ++n_ == 2; })", "({ static int n_; (++n_ & 63) == 0; })",
        "self->desc->input_buffer[0] == '.'", "self->desc->input_buffer[0] == '/'", "self->desc->input_buffer[1] == 0", "strlen(self->desc->hostname) > 12", "strlen(self->desc->hostname) == 0",
        "self->process_data_size == 1", "self->process_data_size > 64", "self->process_stage == 3", "self->current_node == 0", "self->current_node != 0 && strlen(self->current_node->path) > 24",
        "self->current_node != 0 && self->current_node->file_list_size == 0", "self->root != 0 && self->root->childs == 0", "self->prompt_next_state != USH_STATE_READ_PREPARE"]


def mutants(repo, rx):
    out = []
    files = [f for f in sorted((repo / "src").rglob("*.[ch]")) if re.search(rx, str(f))]
    for f in files:
        t = f.read_text()
        rel = str(f.relative_to(repo))
        # blank comments and the licence, keep offsets
        code = re.sub(r"/\*.*?\*/|//[^\n]*", lambda m: re.sub(r"[^\n]", " ", m.group(0)), t, flags=re.S)
        mask = re.sub(r'"(?:\\.|[^"\\\n])*"', lambda m: '"' + "_" * (len(m.group(0)) - 2) + '"', code)
        pre = [m.span() for m in re.finditer(r"^[ \t]*#(?:.*\\\n)*.*$", mask, re.M)]

        def add(a, b, new, kind):
            if any(x <= a < y for x, y in pre):
                return
            if t[a:b] != new:
                out.append((rel, a, b, new, kind))
        rnd = random.Random(rel)
        for fn in re.finditer(r"^[a-z][^;{}()\n]*\([^;{}()]*struct ush_object \*self[^;{}()]*\)\s*\{\n(.*?)^\}", mask, re.M | re.S):
            if f.suffix != ".c":
                break
            for m in re.finditer(r"^([ \t]+)([a-zA-Z_(*][^;{}\n]*;)[ \t]*$", fn.group(1), re.M):
                s = m.group(2)
                if re.match(r"(struct|const|char|int|size_t|bool|static|uint\w+|ush_\w+_t|va_list|void|unsigned|break;|case|default|(?:char|bool|int)\b)", s) or "USH_ASSERT" in s:
                    continue
                a0 = fn.start(1) + m.start(2)
                b0 = fn.start(1) + m.end(2)
                if any(x < b0 and a0 < y for x, y in pre):
                    continue
                for c in rnd.sample(RARE, 6):
                    add(a0, b0, "if (!(%s)) { %s }" % (c, t[a0:b0]), "rare")
                if not re.match(r"return|\(void\)|[^=(]*[^=!<>]= [^(]*;$", s):     # not idempotent in itself
                    add(a0, b0, t[a0:b0] + " " + t[a0:b0], "double")
                    add(a0, b0, "if (%s) { %s } %s" % (rnd.choice(RARE), t[a0:b0], t[a0:b0]), "double")
            for m in re.finditer(r"^([ \t]+)([a-zA-Z_(*][^;{}\n]*;)[ \t]*\n\1([a-zA-Z_(*][^;{}\n]*;)[ \t]*$", fn.group(1), re.M):
                x, y = m.group(2), m.group(3)
                if any(re.match(r"(struct|const|char|int|size_t|bool|static|uint\w+|ush_\w+_t|va_list|void|unsigned|break|return|USH_ASSERT)", q) for q in (x, y)):
                    continue
                a0, b0 = fn.start(1) + m.start(2), fn.start(1) + m.end(3)
                xx, yy = t[a0:a0 + len(x)], t[b0 - len(y):b0]
                add(a0, b0, yy + " " + xx, "swap")
        for g in (["in_pos", "out_pos", "args_count", "write_pos", "write_size"], ["parent", "next", "childs"], ["process_index", "process_index_item", "process_data_size"],
                  ["name", "description", "help"], ["input_buffer", "output_buffer"], ["input_buffer_size", "output_buffer_size", "path_max_length"],
                  ["process_node", "process_child_node", "current_node", "root"], ["file_list", "next"], ["get_data", "set_data", "exec"], ["commands", "process_node"]):
            for m in re.finditer(r"(?<=->|\w\.)(%s)\b(?!\()" % "|".join(g), mask):
                for n in g:
                    if n != m.group(1) and f.suffix == ".c":
                        add(m.start(), m.end(), n, "field")
        narrow = {"size_t": ["uint8_t", "uint16_t"], "int": ["int8_t", "int16_t"], "unsigned": ["uint8_t"]}
        for m in re.finditer(r"(?:^[ \t]+|for \()(size_t|int|unsigned)(?= \w+( =|;))", mask, re.M):
            for n in narrow[m.group(1)]:
                add(m.start(1), m.end(1), n, "width")
        body = f.suffix == ".c"
        if not body and "static inline" not in t:
            continue
        for m in re.finditer(r"(?<![<>=!+\-*/&|^])(==|!=|<=|>=|<(?![<=])|>(?![>=]))(?!=)", mask):
            if m.group(1) in "<>" and (mask[m.start() - 1] == "-" or mask[m.start() - 1] != " "):
                continue
            for n in {"==": ["!="], "!=": ["=="], "<=": ["<", "=="], ">=": [">"], "<": ["<=", "!="], ">": [">=", "!="]}[m.group(1)]:
                add(m.start(1), m.end(1), n, "relop")
        for m in re.finditer(r"&&|\|\|", mask):
            add(m.start(), m.end(), "||" if m.group() == "&&" else "&&", "logic")
        for m in re.finditer(r"\+\+|--", mask):
            add(m.start(), m.end(), "", "incr")
        for m in re.finditer(r"(?<=[\w\])]) ([+\-*/%]) (?=[\w(])", mask):
            for n in {"+": "-", "-": "+", "*": "+", "/": "*", "%": "/"}[m.group(1)]:
                add(m.start(1), m.end(1), n, "arith")
        for m in re.finditer(r"(?<![\w.\\'x])(\d+)(?![\w.'])", mask):
            v = int(m.group(1))
            for n in {v + 1, max(0, v - 1)}:
                add(m.start(), m.end(), str(n), "const")
        for m in re.finditer(r"\b(true|false)\b", mask):
            add(m.start(), m.end(), "false" if m.group() == "true" else "true", "bool")
        for m in re.finditer(r"\b(if|while) \(", mask):
            d, i = 1, m.end()
            while d:
                d += {"(": 1, ")": -1}.get(mask[i], 0)
                i += 1
            if m.group(1) == "if":
                add(m.end(), i - 1, "1", "cond")
            add(m.end(), i - 1, "0", "cond")
            for q in re.finditer(r" (&&|\|\|) ", mask[m.end():i - 1]):     # drop one side
                add(m.end(), m.end() + q.end(), "", "side")
                add(m.end() + q.start(), i - 1, "", "side")
        for m in re.finditer(r"^([ \t]+)([a-zA-Z_(*][^;{}\n]*;)[ \t]*$", mask, re.M):
            s = m.group(2)
            if re.match(r"(struct|const|char|int|size_t|bool|static|uint\w+|ush_\w+_t|va_list|void|unsigned|break;\s*$|return)\b", s) and not s.startswith("break"):
                if not s.startswith("return;"):
                    continue
            add(m.start(2), m.end(2), "(void)0;" if not s.startswith("break") else ";", "delete")
        for m in re.finditer(r"\bUSH_STATUS_\w+\b", mask):
            for n in ("USH_STATUS_OK", "USH_STATUS_ERROR_FILE_NOT_FOUND"):
                add(m.start(), m.end(), n, "status")
        for m in re.finditer(r'"((?:\\.|[^"\\\n])+)"', code):
            s = m.group(1)
            if "#include" in t[t.rfind("\n", 0, m.start()) + 1:m.start()]:
                continue
            add(m.start(1), m.end(1), s[:-1] if s[-2:-1] != "\\" else s[:-2], "text")
        for m in re.finditer(r"\bUSH_STATE_\w+\b", mask):
            if "case " in mask[max(0, m.start() - 6):m.start()]:
                continue
            for n in ("USH_STATE_RESET_PROMPT", "USH_STATE_READ_CHAR"):
                add(m.start(), m.end(), n, "state")
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--n", type=int, default=400)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--file", default=".")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--runs", type=int, default=1500)
    ap.add_argument("--props", default="")
    ap.add_argument("--kind", default=".")
    ap.add_argument("out")
    a = ap.parse_args()
    props = a.props.split() or PROPS
    import check
    binary, libdir, errors = check.build(["stock"])
    work = pathlib.Path(tempfile.mkdtemp(prefix="mutate-"))
    repo = pathlib.Path("/repo")
    ms = [m for m in mutants(repo, a.file) if re.search(a.kind, m[4])]
    random.Random(a.seed).shuffle(ms)
    total = len(ms)
    ms = ms[:a.n]
    print("%d mutants of %d" % (len(ms), total), flush=True)
    q = queue.Queue()
    for i, m in enumerate(ms):
        q.put((i, m))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base.get("stable_passed") or list(base)
    stats, lock = {}, threading.Lock()
    log = open(a.out, "a")

    def note(kind, text=None):
        with lock:
            stats[kind] = stats.get(kind, 0) + 1
            if text:
                log.write(text + "\n")
                log.flush()
            n = sum(stats.values())
            if n % 50 == 0:
                print(n, stats, flush=True)

    def slot(k):
        w = work / ("s%d" % k)
        w.mkdir()
        r = w / "repo"
        sh("git clone -q /repo %s" % r)
        sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/build.sh" % (r, w))
        sh("bash %s/build.sh" % w)
        lib = w / "lib"
        lib.mkdir()
        flags = list(check.BASE) + check.VARIANTS["stock"] + ["-I" + str(r / "src"), "-I" + str(check.SIM), "-O1"] + check.SAN
        objs = {}

        def compile_(f):
            o = w / (str(f).replace("/", "_") + ".o")
            x = sh([check.CC] + flags + ["-c", str(f), "-o", str(o)])
            objs[str(f)] = str(o)
            return x.returncode
        srcs = sorted((r / "src").rglob("*.c")) + [check.SIM / "shim.c"]
        for f in srcs:
            compile_(f)
        while True:
            try:
                i, (f, b, e, new, kind) = q.get_nowait()
            except queue.Empty:
                return
            p = r / f
            old = p.read_text()
            line = old.count("\n", 0, b) + 1
            ls, le = old.rfind("\n", 0, b) + 1, old.find("\n", e)
            desc = "%s:%d %s | %s -> %s" % (f, line, kind, old[ls:le].strip(), (old[ls:b] + new + old[e:le]).strip())
            try:
                p.write_text(old[:b] + new + old[e:])
                x = sh("timeout 120 bash %s/build.sh" % w)
                if x.returncode:
                    note("not compiling"); continue
                sh("timeout 60 python3 /opt/vp/run_tests.py %s/_build %s/vp.txt; python3 /opt/vp/results.py %s/out.json lines:%s/vp.txt" % (r, w, w, w))
                out = json.loads((w / "out.json").read_text())
                if [t for t in stable if t not in out["passed"]]:
                    note("tests fail"); continue
                redo = srcs if f.endswith(".h") else [p]
                if any(compile_(s) for s in redo):
                    note("not compiling"); continue
                sh([check.CC, "-shared"] + check.SAN + ["-fsanitize-coverage=trace-pc-guard"] + [objs[str(s)] for s in srcs] + ["-o", str(lib / "lib_stock.so")])
                hit = None
                for runs in (100, a.runs):
                    for pr in props:
                        x = sh([str(binary), "explore", "--lib", str(lib), "--prop", pr, "--seed", "7", "--runs", str(runs), "--seconds", "60", "--workers", "1",
                                "--no-shrink", "--replay-dir", str(w)])
                        if x.returncode == 1:
                            hit = pr
                            break
                        if x.returncode not in (0, 1):
                            hit = "rc%d" % x.returncode
                    if hit:
                        break
                if not hit and kind == "rare":      # was the rare situation reached at all?
                    c = re.match(r"if \(!\((.*)\)\) \{ (.*) \}$", new, re.S)
                    p.write_text(old[:b] + "if (%s) __builtin_trap(); %s" % (c.group(1), c.group(2)) + old[e:])
                    compile_(p)
                    sh([check.CC, "-shared"] + check.SAN + ["-fsanitize-coverage=trace-pc-guard"] + [objs[str(s)] for s in srcs] + ["-o", str(lib / "lib_stock.so")])
                    reached = [pr for pr in props if pr not in ("C19", "C21") and sh([str(binary), "explore", "--lib", str(lib), "--prop", pr, "--seed", "7", "--runs", str(a.runs), "--seconds", "60", "--workers", "1",
                                                         "--no-shrink", "--all-fail", "--replay-dir", str(w)]).stdout.count("FAIL") > 0]
                    desc = ("reached in %s: " % reached if reached else "NOT REACHED: ") + desc
                if hit:
                    note("detected", "DETECTED %s %s" % (hit, desc) if hit.startswith("rc") or runs > 100 else None)
                else:
                    note("survived", "SURVIVED " + desc)
            finally:
                p.write_text(old)
                if f.endswith(".c"):
                    compile_(p)
                else:
                    for s in srcs:
                        compile_(s)
    try:
        ts = [threading.Thread(target=slot, args=(k,)) for k in range(a.jobs)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        shutil.rmtree(work)
    print("done", stats, flush=True)
    log.write("# done %s\n" % stats)


main()
