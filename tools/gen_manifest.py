#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, pathlib
HERE = pathlib.Path(__file__).resolve().parent.parent
N = {
 "C01": "output stream and callbacks against the reference model under refused writes, stalls, input gaps and uneven pacing; every refused byte must be re-offered; failures are attributed by re-running the plan over an ideal link",
 "C02": "echo of every consumed byte against a model of the line editor; the line reaching the parser is observed through argv, status and echo; streams with edits, escapes, Ctrl+C, overflow, NUL and 8-bit noise",
 "C03": "argc/argv seen by callbacks against an independent tokenizer, across sequences of lines with arrival gaps and resets between them",
 "C04": "which callback runs, how often, with which descriptor and in which order with the general callback, and the status otherwise",
 "C05": "prompt, pwd, cd, path-taking commands and path queries against a path model, over mount/unmount/cd histories and short path limits",
 "C06": "getter calls and streamed bytes against the model, with getters that fail, change, shrink or print and files removed during the transfer",
 "C07": "dump output decoded and compared with the data, all sizes around the column count, several column configurations",
 "C08": "listing compared with the mounted tree, with mounts and unmounts between and during activities",
 "C09": "listing and help texts compared with the registered groups under add/remove histories",
 "C10": "setter calls with exact bytes and statuses against an independent decoder",
 "C11": "echo of completions and lists against a model of the candidates and of the line; the line executed afterwards must be the line shown",
 "C12": "AddressSanitizer, UBSan, pattern-initialised locals, exact-size heap blocks, write-protected constants and the library's own assertions during fault-heavy runs; a crash is minimised and replayed",
 "C13": "statuses of mount/unmount and everything that looks at the tree against a map of mounted paths, actions placed in the middle of activities and inside callbacks",
 "C14": "dispatch, listing, help and completion against the list of registered groups, actions placed in the middle of activities and inside callbacks",
 "C15": "2 to 4 shells serviced in a seeded interleaving, each compared with its own model; failures attributed by re-running the shell alone",
 "C16": "reset, deinit/init and power loss at seeded points of every activity, over arbitrary memory contents; the model restarts",
 "C17": "at most one read and one write per service call, callbacks per call, return value, re-offers while refused, and progress within a bound computed from the outstanding output once the link accepts",
 "C18": "print functions called from callbacks and between service calls, output compared with a model of messages, continuation and overflow",
 "C19": "the same runs on 24 build variants covering every switch in both positions, each compared with the model restricted to the enabled features; the default build is the control",
 "C20": "the real Linux demo and Arduino sketches behind stand-ins for stdio, serial port, pins and clock, with end of file, clock jumps, power cycles and refused bytes, compared with a model of the advertised devices",
 "C21": "allocator interposed during library calls; deepest stack use of each call measured in an unsanitised build and compared with a bound from path limit, input buffer and nothing else",
 "C22": "application-defined processing commands (random sequences of text, binary, wait, state and API steps, hand-over to other files) against a model of the step machine: which callback runs, in which step, when, with which fields; interrupted by resets, power cycles, prints and tree changes at seeded points",
}
checks = []
for k, v in N.items():
    checks.append({
        "property": k,
        "quick_cmd": "python3 check.py " + k,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + k,
        "evidence_file": "evidence/%s.json" % k,
        "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and histories of the real library against an executable reference model",
        "level": "exploration",
        "level_note": "Decides: " + v + ". Sampling: up to 150,000 simulated runs or 60 s (quick), 1,200,000 or 13 minutes (thorough); no claim beyond what was reached. Trusts the reference model (sim/model.cpp), the simulator and the compiler's sanitizers; callbacks and actions are those of DESIGN.md (Workload).",
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [],
  "notes": "No hooks in /repo: the interface, callbacks, configuration file and memory handed to ush_init are the seams. `python3 check.py replay FILE` replays a violation."},
  open(HERE / "MANIFEST.json", "w"), indent=1)
