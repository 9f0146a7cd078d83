#!/usr/bin/env python3
"""Decides one property: builds the simulator from /repo's working tree, searches seeded runs, writes evidence.

usage: check.py Cnn [quick|thorough]   (VERIF_SEED, VERIF_TIER)
exit 0: held on everything explored; 1: a VIOLATION line was printed; 2: the check itself failed."""
import sys, os, json, subprocess, time, signal, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as B

NW = 8
# per property: (variant, workers, first worker index)
PLAIN = [("plain", 8)]
ASAN = [("asan", 8)]
BOTH = [("plain", 4), ("asan", 4)]
CONF = {
    "C01": PLAIN, "C02": PLAIN, "C03": PLAIN, "C04": PLAIN, "C05": PLAIN, "C06": PLAIN, "C07": PLAIN,
    "C08": ASAN, "C09": BOTH, "C10": PLAIN, "C11": PLAIN, "C12": PLAIN, "C13": BOTH, "C14": ASAN, "C15": PLAIN, "C16": PLAIN, "C17": PLAIN, "C18": PLAIN, "C19": PLAIN, "C20": PLAIN, "C21": PLAIN,
}
LEVEL = {"C01": "fault_enumeration", "C02": "fault_enumeration", "C03": "fault_enumeration", "C08": "fault_enumeration"}
RULES = json.load(open(os.path.join(HERE, "tools", "rules.json")))
QUICK, THOROUGH = 60, 600

def known(prop):
    sigs, texts = [], {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" sig=", 1)[1]
                sig, text = rest.split(" ", 1)
                sigs.append(sig); texts[sig] = text
    return sigs, texts

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = float(os.environ.get("VSIM_SECS", THOROUGH if tier == "thorough" else QUICK))
    t0 = time.time()
    conf = CONF[prop]
    try:
        exes = {v: B.locked_build(v) for v, _ in conf}
    except RuntimeError as e:
        sys.stderr.write("the tree does not build under the simulator:\n%s\n" % e)
        return 2
    tb = time.time() - t0
    sigs, texts = known(prop)
    tmp = tempfile.mkdtemp(prefix="vsim-")
    outdir = os.path.join(HERE, "replays")
    os.makedirs(outdir, exist_ok=True)
    kf = os.path.join(tmp, "known")
    open(kf, "w").write("".join(s + "\n" for s in sigs))
    procs, w = [], 0
    for variant, n in conf:
        for _ in range(n):
            o = open(os.path.join(tmp, "%d.json" % w), "w+"); e = open(os.path.join(tmp, "%d.err" % w), "w+")
            cmd = [exes[variant], "run", "--prop", prop, "--seed", str(seed), "--from", str(w), "--step", str(NW),
                   "--count", "1000000000", "--secs", str(secs), "--out", outdir, "--known", kf]
            procs.append([subprocess.Popen(cmd, stdout=o, stderr=e, stdin=subprocess.DEVNULL, start_new_session=True), o, e, None])
            w += 1
    limit = time.time() + secs + 200
    early = False
    while any(p[3] is None for p in procs):
        time.sleep(0.05)
        for p in procs:
            if p[3] is None:
                p[3] = p[0].poll()
                if p[3] == 1: early = True
        if early or time.time() > limit: break
    killed = 0
    for p in procs:
        if p[3] is None:
            try: os.killpg(p[0].pid, signal.SIGKILL)
            except OSError: pass
            p[0].wait(); killed += 1
    tot = {k: 0 for k in ("runs", "evaluations", "nontrivial", "procs", "steps", "io_events", "allocs", "unrepeatable")}
    edges = 0
    sums = {k: {} for k in ("fired", "probes", "outcomes", "known")}
    states, hashes, samples, viol, errors, unrep = set(), set(), [], [], [], []
    for i, (p, o, e, rc) in enumerate(procs):
        if rc is None: continue
        o.seek(0); e.seek(0)
        try: d = json.loads(o.read())
        except ValueError:
            errors.append("worker %d ended with status %s: %s" % (i, rc, e.read()[-2000:])); continue
        for k in tot: tot[k] += d[k]
        edges = max(edges, d["edges"])
        for k in sums:
            for a, b in d[k].items(): sums[k][a] = sums[k].get(a, 0) + b
        states |= set(d["states"]); hashes |= set(d["hashes"])
        samples += d["samples"][:1]
        if d["violation"]: viol.append((d["violation"], d["text"]))
        elif d["error"]: errors.append(d["error"])
        if d["unrepeatable_text"]: unrep.append(d["unrepeatable_text"])
    if killed and not viol: errors.append("%d workers overran their time" % killed)
    wall = time.time() - t0
    rule = RULES[prop]
    search = max(wall - tb, 0.001)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
        "coverage": {
            "evaluations": tot["evaluations"],
            "distinct_nontrivial": len(hashes),
            "rule": rule["rule"],
            "samples": [s[:900] for s in samples[:6]],
            "simulated_runs": tot["runs"],
            "nontrivial_evaluations": tot["nontrivial"],
            "simulated_processes": tot["procs"],
            "runs_per_hour": int(tot["runs"] / search * 3600),
            "evaluations_per_hour": int(tot["evaluations"] / search * 3600),
            "simulated_steps": tot["steps"],
            "simulated_time": "%d basic blocks of simulated processes; the code under test reads no clock" % tot["steps"],
            "io_events": tot["io_events"], "allocation_events": tot["allocs"],
            "faults_injected": {k: v for k, v in sums["fired"].items() if v},
            "abstract_outcomes": len(states),
            "abstract_outcome_list": sorted(states)[:120],
            "instrumented_blocks_reached": edges,
            "distinct_measure": "hash of the whole event log (every seam call with its arguments and result) of all processes of an evaluation",
            "probes": sums["probes"],
            "known_findings_hit": sums["known"],
            "real_components": rule["real"], "stubbed_components": rule["stub"],
        },
        "assumptions": rule["assume"],
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    if viol:
        for v, t in viol[:1]: print(t); print(v)
        return 1
    for u in unrep: sys.stderr.write("unrepeatable: %s\n" % u)
    if unrep: errors.append("violations that did not repeat identically")
    if tot["evaluations"] == 0: errors.append("nothing was explored")
    if errors:
        for e in errors[:3]: sys.stderr.write("ERROR: %s\n" % e)
        return 2
    for s in sigs: print("KNOWN-FINDING: property=%s %s" % (prop, texts[s]))
    print("%s held: %d runs, %d evaluations (%d distinct), %d simulated processes, %.0f s" %
          (prop, tot["runs"], tot["evaluations"], len(hashes), tot["procs"], wall))
    return 0

if __name__ == "__main__": sys.exit(main())
