#!/usr/bin/env python3
"""Writes MANIFEST.json and tools/rules.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLI_REAL = ["all of /repo/src and /repo/app, compiled unchanged from the working tree", "glibc stdio above the stream seam, libstdc++"]
CLI_STUB = ["file system (in memory)", "stdin/stdout delivery", "popen children: a mini shell with cat, gzip, bzip2 (real framing with length and checksum, simplified coding)", "heap (deterministic arena)"]
ASSUME = ["every nondeterministic input of the tools is stdio, popen, the heap and the command line (they use no clock, threads, sockets or random numbers)",
          "the stub compressors reject damaged and truncated data as gzip and bzip2 do"]
T = {
 "C01": ("one run draws a tool, options, inputs and output channels, executes it fault-free, then repeats it with write, flush, close, disk-full and child faults placed on the output events of that execution; an evaluation is one faulted execution; non-trivial when a fault fired",
         "exploration of injected output faults at randomly drawn command lines and fault points", "seeded fault injection on output streams, compared with the fault-free run"),
 "C02": ("as C01 with read errors, failing/dying decompressors and cut compressed files on the input events of the fault-free execution; non-trivial when a fault fired or the file was cut",
         "exploration", "seeded fault injection on input streams, compared with the fault-free run"),
 "C03": ("a writing tool is killed at a drawn I/O event (part of the pending write applied), what is left is given to 1-8 reading tools and compared with what they make of the whole model, then the command runs again; non-trivial when the crash fired",
         "exploration", "seeded crash injection, durable-state inspection by every reader, rerun"),
 "C04": ("one logical command is executed 2-4 times under different channels, chunkings, buffer sizes, heap fills, -H and -L; non-trivial from the second variant on",
         "exploration", "seeded schedules of data arrival, outputs compared between variants"),
 "C05": ("a command with odd file names among bystander files runs with no fault, output/input faults and crashes; all files are compared afterwards",
         "exploration", "seeded fault and crash injection with whole-file-system comparison"),
}
json_extra = os.path.join(HERE, "tools", "manifest_more.json")
MORE = json.load(open(json_extra)) if os.path.exists(json_extra) else {}
LEVEL = {"C01": "fault_enumeration", "C02": "fault_enumeration", "C03": "fault_enumeration", "C08": "fault_enumeration"}
rules, checks = {}, []
for p, (rule, note, tech) in T.items():
    rules[p] = {"rule": rule, "real": CLI_REAL, "stub": CLI_STUB, "assume": ASSUME}
for p, m in MORE.items():
    T[p] = (m["rule"], m["note"], m["tech"])
    rules[p] = {"rule": m["rule"], "real": m.get("real", CLI_REAL), "stub": m.get("stub", CLI_STUB), "assume": m.get("assume", ASSUME)}
for p in sorted(T):
    rule, note, tech = T[p]
    if note == "exploration":
        note = ""
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": "deterministic simulation: " + tech,
                   "level": LEVEL.get(p, "exploration"),
                   "level_note": (note + ". " if note else "") + "Holds on every simulated run explored (seeded search, not exhaustive). Trusts the simulator's stubs and the oracle described in DESIGN.md."})
NA = {
 "N02": "a hill climber over a pure function of counts and text: no schedule, fault, clock or history takes part, and it promises a local optimum only, so there is no oracle to simulate against; that it ends is C13, that its result is used consistently and within range C17",
}
done = {c["property"] for c in checks}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
na = []
for q in props:
    if q["id"] not in done:
        na.append({"property": q["id"], "reason": NA.get(q["id"], "check under construction")})
m = {"version": 1, "setup_cmd": "python3 sim/build.py plain && python3 sim/build.py asan",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: the seams are link-time wrappers (ld --wrap), glibc cookie streams and compiler coverage callbacks, added when the checks compile /repo's sources", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check compiles /repo/src and /repo/app from the working tree into /verif/build (git-ignored)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
json.dump(rules, open(os.path.join(HERE, "tools", "rules.json"), "w"), indent=1)
