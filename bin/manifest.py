#!/usr/bin/env python3
# Writes MANIFEST.json from the list of checks below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
checks = {
 "C01": ("simulated write/read round trips under seeded stream delivery and map order", "seeded search; recordings up to some thousand parts"),
 "C02": ("simulated round trips against a reference quantiser", "seeded search; envelopes of lossy techniques come from a reference model of the quantiser"),
 "C03": ("seeded stream delivery schedules, differential against delivery at once", "seeded search over deliveries"),
 "C04": ("injected read failures and cuts at every byte of short files, sampled bytes of long ones", "seeded search over files; cut positions exhaustive only for short files"),
 "C05": ("injected byte damage in front of and behind compression under step and allocation budgets", "seeded search over damage"),
 "C06": ("injected write failures at every byte of short files, sampled bytes of long ones, and unserialisable recordings", "seeded search over recordings; failure positions exhaustive only for short files"),
 "C07": ("byte counts compared with the simulated streams' own, under injected failures", "seeded search"),
 "C08": ("seeded histories of operations and injected failures over shared values, against fault-free baselines", "seeded search over histories"),
 "C09": ("seeded statement-level interleavings of caller tasks, with the race detector as an extra invariant", "seeded search over schedules; preemption between statements of rap's own code"),
 "C10": ("simulated binary streams that fragment, fail, fall short or overrun", "seeded search"),
 "C11": ("independent version 1 encoder, simulated delivery, upgrade through the simulated command line", "seeded search"),
 "C12": ("simulated disk and standard streams failing at every operation of short invocations, sampled ones of long", "seeded search over inputs and faults"),
 "C13": ("simulated command line runs against independent readers of CSV, JSON and the summary", "seeded search over inputs"),
 "C14": ("simulated third-party codecs that record what they are fed and fail on demand", "seeded search over codec sets"),
 "C16": ("histories of slicing, storing to and loading from failing streams by simulated concurrent users, every slice against a model of it", "seeded search over recordings, intervals, histories and schedules"),
 "C17": ("histories of slicing, storing, loading and measuring by simulated concurrent users, every verdict against the captures", "seeded search over recordings, histories and schedules"),
 "C18": ("histories of JSON, BSON and file conversions of shared blocks by simulated concurrent users, against a model of the block", "seeded search over blocks, histories and schedules"),
 "C19": ("simulated histories of upgrades, downgrades and crashes, the earlier release being an executable model of the stored format", "seeded search over histories; the earlier release is a model written from its code"),
 "C20": ("the simulated command line killed at any file operation, repeatedly, on a simulated disk that keeps what was done", "seeded search over inputs and kills; a kill loses nothing that was written (no power loss)"),
 "C21": ("simulated programs at both ends of bounded connections that break, interleaved by a seeded scheduler; liveness as no task left waiting", "seeded search over programs, connections, breaks and schedules"),
 "C22": ("properties written to and read from simulated streams that fragment, end, fail and stay open, and shared by simulated concurrent users", "seeded search over properties, deliveries, faults, damage and schedules"),
 "C15": ("simulated live streams that record any read past the recording", "seeded search"),
}
na = {}
checks = dict(sorted(checks.items()))
done = [p for p in checks if os.path.exists(f"{here}/sim/harness/{p.lower()}.go")]
m = {
 "version": 1,
 "setup_cmd": "bin/setup",
 "checks": [{
  "property": p,
  "quick_cmd": f"bin/check {p} quick",
  "thorough_cmd": f"bin/check {p} thorough",
  "technique": T + checks[p][0],
  "level": "exploration",
  "level_note": checks[p][1],
 } for p in done],
 "not_applicable": [{"property": p, "reason": r} for p, r in na.items()],
}
m["not_applicable"] += [{"property": p, "reason": "Check not built yet."} for p in checks if p not in done]
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
