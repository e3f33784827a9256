#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
TECH = {
 "C01": "seeded simulation of a torn, fragmented byte stream against a reference codec",
 "C02": "seeded byte-fault injection against a reference decoder",
 "C03": "seeded length-prefix forging under a metered allocator",
 "C04": "seeded tearing and corruption; differential against plain decode and a reference failure locator",
 "C05": "seeded torn/corrupt/outage attempts with healthy retry against a reference field decoder",
 "C06": "seeded simulation of an append-only log with crash cuts against a reference encoder",
 "C07": "seeded histories of failing and succeeding encodes under resolver outages; rollback check",
 "C08": "seeded resolver outages and retries; refinement against the fault-free run",
 "C09": "seeded encodes under outages and absurd claimed lengths with a counted resolver and a metered allocator; step and memory budget",
 "C10": "seeded writer failures at every write; prefix and stop-at-failure check against a reference printer",
 "C11": "seeded lossy text channel against a reference grammar",
 "C12": "seeded scripts of accepting, declining and failing custom parsers against a reference parser",
 "C13": "seeded text damage and parse histories; error location and remainder invariants",
 "C14": "seeded scripts of custom formatters and writer failures against a reference printer",
 "C15": "seeded literal truncation and corruption against independent hex and SS58 codecs",
 "C16": "seeded sink failures in a recording serializer against a reference call sequence",
 "C17": "seeded scripted serde sources (failing, lying) against a reference interpretation",
 "C18": "seeded scripted consumers (hints, failures) over values as deserializers against a reference",
 "C19": "seeded scripted serializable sources (failing, lying) against a reference interpretation",
 "C20": "seeded cooperative scheduling of real threads at callback points with injected panics",
 "C22": "seeded peer failures and callback panics under a metered allocator; heap conservation over repeated uses",
 "C23": "seeded torn and corrupt inputs and resolver outages with a counted resolver; step budget",
 "C32": "seeded panics in a context mapper; conservation of unique contexts",
 "C33": "seeded user types with failing Serialize/Deserialize impls; round trip and retry against the original datum",
 "C34": "seeded failures and wrong size promises of the caller's iterators, conversions and contexts; conservation and read-back against the specified value",
 "C21": "seeded use and configuration histories of builders against fresh ones",
}
NOTE = ("Sampled, not exhaustive: every run is a function of its seed; a clean batch is evidence for the explored runs only. "
        "Trusts the reference model in /verif/sim (written from the format, not from the code) and the dependency crates.")
registered = set(subprocess.run([root + "/target/release/sim", "list"], capture_output=True, text=True).stdout.split())
NA = {
 "C30": "a pure lookup in an immutable in-memory value: no schedule, clock, I/O, fault or history it could depend on, so there is nothing to simulate",
 "C31": "a compile-time macro over source tokens: decided by the compiler for each invocation, with no runtime nondeterminism or faults to schedule",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registered:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection: " + TECH[i],
                       "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam (type resolver, input bytes, output buffer, writer, serde source/sink, callbacks, allocator, thread schedule) is already a parameter or a trait of the library. See DESIGN.md. Known and fixed findings: known-findings.txt."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
