#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
MON = "runtime monitoring: reference-model oracle over generated executions of the debug-asserting build"
NOTE = ("Held on the executions counted in the evidence file, each judged by an independent oracle; nothing is claimed beyond "
        "them. Trusts the oracle code in /verif/harness and the Rust toolchain.")
T = {
    "C01": "runtime monitoring: observable state against independently authored archives, both byte orders",
    "C02": "runtime monitoring: fault injection into archives (every truncation point, damage), crash, panic and hang monitors",
    "C03": "runtime monitoring: double-precision interpolation oracle over sampled poses",
    "C04": "runtime monitoring: differential history oracle (long-lived context against new contexts, bit for bit)",
    "C05": "runtime monitoring: differential oracle across context capacities and animation switches",
    "C06": "runtime monitoring: exhaustive half-precision decoding and quaternion decoding against an exact oracle",
    "C07": "runtime monitoring: save and restore at random points of recorded playbacks, bit-exact continuation oracle",
    "C08": "runtime monitoring: round-trip oracle over observable state and behaviour",
    "C09": "runtime monitoring: double-precision blending oracle over generated layers",
    "C10": "runtime monitoring: double-precision additive oracle and add-then-subtract inverse law",
    "C11": "runtime monitoring: double-precision motion blending oracle and scaling law",
    "C12": "runtime monitoring: double-precision matrix chain oracle over generated hierarchies",
    "C13": "runtime monitoring: write-set oracle over canaried outputs and differential updates",
    "C15": "runtime monitoring: geometric oracle over applied corrections",
    "C16": "runtime monitoring: geometric oracle over applied corrections",
    "C17": "runtime monitoring: double-precision skinning oracle over all code paths",
    "C18": "runtime monitoring: double-precision key interpolation oracle",
    "C19": "runtime monitoring: trace oracle over reported edges (completeness, order, exactly-once across windows)",
    "C20": "runtime monitoring: acceptance oracle with canaried outputs over damaged configurations",
    "C21": "runtime monitoring: write-set monitor (canaries and bit comparison of every input, output and asset)",
    "C22": "runtime monitoring: differential buffers, recording buffers with injected faults, held and poisoned locks",
    "C23": "ThreadSanitizer and Miri over concurrent workloads; runtime monitoring: sequential-equivalence and whole-result oracles, deadlock monitor",
    "C24": "AddressSanitizer, MemorySanitizer, Miri (Tree Borrows) and a watching allocator over every workload of all monitors",
    "C25": "runtime monitoring: differential traces of the same programs across native, 32-bit, ARM (Miri) and WebAssembly builds and repeated runs",
    "C26": "runtime monitoring: double-precision oracle over dense and hostile arguments, lane agreement",
    "C27": "runtime monitoring: differential oracle, a long-lived reconfigured job against brand-new ones, bit for bit",
    "C28": "runtime monitoring: fault injection into saved data (cuts and damage in JSON, bincode, CBOR and rkyv), panic, allocation, range and consistency monitors",
    "C14": "runtime monitoring: recorded traversal events against a graph oracle",
}
N = {}
import sys
exec(open(os.path.join(H, "bin", "claims.py")).read()) if os.path.exists(os.path.join(H, "bin", "claims.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": T[i], "level": "exploration", "level_note": N.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": "Not claimed yet: its monitors are still being built."})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public interface. DESIGN.md says how each check decides its property."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed", len(na), "not")
