#!/usr/bin/env python3
"""Writes MANIFEST.json from the table in check.py."""
import json, check
props = [json.loads(l) for l in open("properties.jsonl")]
NA = {
 "C20": "A pure function of its input: what the compiler evaluates has no schedule, clock, fault or I/O a simulator could decide; the existing constexpr tests are the right tool.",
 "C23": "Other platforms and compilers cannot be executed or simulated here (no cross tool chain or emulator).",
}
TITLE = {p["id"]: p["title"] for p in props}
NOTE = "Seeded search over %s; sampling, so a clean batch is evidence, not proof. Trusts the reference models in sim/ref.hpp, g++, the kernel's single-step and CPUID-fault support (with fallbacks)."
WHAT = {
 "C01": "call schedules, copies, crashes and restarts of hash instances on simulated processors", "C02": "call schedules, crashes and restarts of MAC instances", "C03": "call schedules, positions and placements of ChaCha20 instances on simulated processors",
 "C04": "aad/encrypt/decrypt/digest/verify schedules of AEAD instances", "C05": "channel faults (bits, loss, duplication, reordering, truncation, mixing) between an AEAD sender and receiver", "C06": "derive schedules, restarts and reinitialisations of KDF instances",
 "C07": "transit damage to encoded text", "C08": "simulated processors (CPUID/XCR0 reports) and construction orders, with a breakpoint on every instruction the processor lacks", "C09": "life-cycle histories with crashes at arbitrary instructions",
 "C10": "placements of allocation failures", "C11": "buffer placements against guard and read-only pages, with single-stepped calling-convention monitoring", "C12": "histories up to destruction, run twice with different secrets", "C13": "instruction-level interleavings of threads and handlers",
 "C14": "arguments, simulated clocks and failing output devices", "C15": "histories that pass 2^29, 2^31 and 2^32 bytes", "C21": "histories run twice under the single-stepping simulator with different secrets, comparing executed instructions and memory operands"}
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo are needed: all seams are existing ones (template parameters, caller-supplied memory and containers, CPUID faults, the allocator, single-stepping, standard streams and clocks)."}
for p in props:
    i = p["id"]
    if i in check.PROPS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "technique": "deterministic simulation with fault injection (seeded schedule and fault search against an executable reference model)", "level": "exploration", "level_note": NOTE % WHAT[i], "evidence_file": "evidence/%s.json" % i})
    elif i not in NA:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
