#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "reference-model monitor over generated executions"
T = {
    "C01": ("runtime monitor: encode/decode round trip of generated values with exact byte accounting", "exploration"),
    "C02": ("runtime monitor: encode/decode round trip of generated values with exact byte accounting", "exploration"),
    "C03": ("runtime monitor: online comparison with an executable wire-format specification", "exploration"),
    "C04": ("runtime monitor: online comparison with an executable wire-format specification", "exploration"),
    "C05": ("runtime monitor: hostile bytes in watched worker processes (panic, abort, stack, counting allocator)", "exploration"),
    "C06": ("runtime monitor: scripted readers cutting, splitting and failing at chosen offsets", "fault_enumeration"),
    "C07": ("runtime monitor: scripted writers failing at chosen offsets in every way", "fault_enumeration"),
    "C08": ("runtime monitor: specification-guided corruption of each kind of place, accept/reject oracle", "exploration"),
    "C09": ("runtime monitor: JSON round trip of generated values", "exploration"),
    "C10": ("runtime monitor: online comparison with an executable JSON specification", "exploration"),
    "C11": ("runtime monitor: hostile text and documents in watched worker processes, accept/reject oracle", "exploration"),
    "C12": ("runtime monitor: text forms against an executable specification", "exploration"),
    "C13": ("runtime monitor: currency text against exact big-integer arithmetic", "exploration"),
    "C14": ("runtime monitor: currency arithmetic against big integers, builds with and without overflow checks", "exploration"),
    "C15": ("runtime monitor: tax against exact rational arithmetic", "exploration"),
    "C16": ("runtime monitor: chain parameters against an executable schedule", "exploration"),
    "C24": ("runtime monitor: sector roots on varied thread pools and schedules against an independent Merkle tree", "exploration"),
    "C25": ("runtime monitor: signatures against an independent Ed25519", "exploration"),
    "C26": ("runtime monitor: seeds and keys against an independent derivation", "exploration"),
    "C27": ("runtime monitor: allocator inspecting every freed block, optimized and whole-program-optimized builds", "exploration"),
    "C28": ("runtime monitor: store/reload of generated chain states, accept/reject oracle", "exploration"),
    "C29": ("runtime monitor: recorded results of sequential, random and concurrent call histories", "exploration"),
    "C30": ("AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri over all workloads; memory-content and leak monitors", "exploration"),
    "C31": ("runtime monitor: CBOR round trip of generated values", "exploration"),
    "C32": ("runtime monitor: derived codecs of generated struct shapes against composition of field codecs", "exploration"),
}
for i in range(17, 24):
    T[f"C{i}"] = ("runtime monitor: online comparison with an executable hashing specification, plus change/no-change oracle", "exploration")
NOTE = {
    "C30": "Held on the executions of the workloads under each tool; undefined behaviour on paths they do not reach, or of kinds the tools do not instrument, is not seen.",
    "C24": "Held for the sectors, pool sizes and interleavings the scheduler produced, as counted in the evidence.",
    "C27": "Held for the containers, drop paths and three builds exercised; copies the compiler leaves in registers or dead stack slots are outside the property.",
    "C06": "Every cut, split and read fault within the sampled set of offsets of each generated encoding (all offsets of small ones).",
    "C07": "Every write fault within the sampled set of offsets of each generated encoding (all offsets of small ones).",
}
DEF = "Held on the generated executions counted in the evidence; trusts the harness's own executable specification, which shares no code with the crate."
checks = [
    {
        "property": f"C{i:02}",
        "quick_cmd": f"./run.sh C{i:02} quick",
        "thorough_cmd": f"./run.sh C{i:02} thorough",
        "technique": T[f"C{i:02}"][0],
        "level": T[f"C{i:02}"][1],
        "level_note": NOTE.get(f"C{i:02}", DEF),
    }
    for i in range(1, 33)
]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: every property is observed through the public API, the allocator, the process boundary or compiler instrumentation.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
