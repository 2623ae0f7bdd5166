"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
HOW = {
 "C01": "deterministic simulation: seeded thread scheduler at every source line/byte code, isolated-run oracle",
 "C02": "deterministic simulation: seeded histories of calls, field and configuration changes, fresh-process oracle",
 "C03": "deterministic simulation with fault injection: seeded interrupts, allocation/system-call/ephemeris failures at any step",
 "C04": "deterministic simulation: seeded observers and faults at steps inside calls, snapshot oracle",
 "C05": "deterministic simulation of a worker-pool campaign (reorder, duplicate, loss, crash, retry) against an interval-union model",
 "C06": "deterministic simulation of a worker-pool campaign (reorder, duplicate, loss, crash, retry) against a reference reducer",
 "C07": "deterministic simulation of a worker-pool campaign (reorder, duplicate, loss, crash, retry) against a reference pairing",
 "C08": "deterministic simulation of campaigns over seeded window splits, kills and resumes against a sampled visibility model",
 "C09": "deterministic simulation of storage faults (torn, corrupt, short, interrupted, failing I/O) under the configuration loader",
 "C10": "deterministic simulation of save/crash/restore at seeded points with damaged saves, continued-run oracle",
 "C11": "deterministic simulation of processes under virtual clock, entropy, hash seed, time zone and locale",
 "C12": "deterministic simulation: seeded batch splits, interleaved and resumed, per-sample oracle",
 "C13": "deterministic simulation: seeded interleavings and histories of member generation and member changes, fresh-process oracle",
 "C21": "deterministic simulation of a worker-pool campaign generating grid regions (reorder, duplicate, loss, crash, retry) against the whole grid",
 "C22": "deterministic simulation of campaigns with arriving element sets over seeded schedules and faults, closest-set oracle in a fresh process",
}
LEVELNOTE = ("Seeded search, not exhaustive: no violation in the simulated runs of the tier. Real tatc and dependencies run; "
             "the DE421 kernel, wall clock, entropy, CSPICE entry and locks are simulator-owned. ")
NA = ("Pure function of its arguments: no schedule, clock, I/O, fault or history takes part, so simulation would only "
      "be input generation under another name.")
claimed = [p["id"] for p in props if os.path.exists(os.path.join(V, "simtatc", "props", p["id"].lower() + ".py"))]
m = dict(version=1, setup_cmd="bash ./setup.sh",
         checks=[dict(property=c, quick_cmd="./check %s --tier quick" % c, thorough_cmd="./check %s --tier thorough" % c,
                      evidence_file="evidence/%s.json" % c, technique=HOW[c], level="exploration", level_note=LEVELNOTE) for c in claimed],
         not_applicable=[dict(property=p["id"], reason=NA if p["id"] > "C13" else "check under construction") for p in props if p["id"] not in claimed],
         notes="No hooks in /repo: all seams are outside it (sys.monitoring, LD_PRELOAD shim, patched loader and locks). See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
