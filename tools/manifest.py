#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks are those the simulator has a scenario for."""
import json, re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = re.findall(r'Prop \{ id: "(C\d\d)"', open(f"{here}/sim/src/props/mod.rs").read())
NOTE = {
 "C01": "Every reader and accessor, fed damaged traffic; panics, aborts, overflow checks and step-bound non-termination are violations.",
 "C02": "Stream readers over fragmenting networks against an independent CESR framing model.",
 "C03": "Every code and every conversion chain against an independent CESR codec.",
 "C04": "Small alterations of encodings: whatever is accepted must be the canonical encoding of what was read.",
 "C05": "Items misrouted to readers of other kinds, against the list of codes each kind owns.",
 "C06": "Signing and verification against ed25519-dalek, k256 and p256 used directly; forged and misattributed packets must be refused.",
 "C07": "Self-addressing data against an independent SAID model and the digest crates used directly.",
 "C08": "Prefix derivation and verification against an independent model of the derivation rules.",
 "C09": "Threshold decisions against exact rational arithmetic, through every stored form.",
 "C10": "Derived keys after crash and restart against the argon2 crate used directly.",
 "C11": "Entropy source scripted below getrandom; every secret must be bytes delivered whole during that call.",
 "C12": "Virtual clock below clock_gettime, with jumps, ticking reads and a foreign time zone; against an independent calendar.",
 "C13": "Threads under a seeded scheduler which preempts at basic-block edges, against the same calls alone in a fresh process.",
 "C14": "Every heap block the library releases is searched for the secrets at the moment of release.",
 "C15": "Allocated bytes and executed basic blocks per delivered byte, under forged sizes and memory budgets.",
 "C16": "Numbers, ordinals, indices and counts against 128-bit arithmetic; logs replayed after crashes.",
 "C17": "Messages and credentials relayed and reread over faulty nodes against an independent JSON and KERI model.",
 "C19": "Documents wrapped and unwrapped hop by hop over a corrupting network with their paths re-rooted, against an independent model of paths.",
 "C18": "Controllers, witnesses and a forging peer over a faulty network and disks; safety at every step and bounded progress once faults stop.",
}
checks = [{
  "property": p,
  "quick_cmd": f"./check.sh {p} quick",
  "thorough_cmd": f"./check.sh {p} thorough",
  "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and inputs; reference-model oracle)",
  "level": "exploration",
  "level_note": NOTE[p] + " Sampled, not exhaustive. Trusts the reference models in sim/src, the named cryptographic crates where used as the other implementation, rustc and the operating system below the seams.",
} for p in claimed]
na = [
  {"property": "C20", "reason": "The bindings are foreign-function wrappers which only run inside a JavaScript host; there is none here that can run wasm-bindgen output, and outside wasm32 every binding call aborts, so there is no seam at which to simulate them."},
]
for p in [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]:
    if p not in claimed and p not in ("C20",):
        na.append({"property": p, "reason": "Scenario under construction; not yet claimed."})
m = {"version": 1, "setup_cmd": "./sim/build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are system calls, the allocator and compiler instrumentation, interposed in the simulator's own executable. Repairs of genuine defects are the fix: commits listed in known-findings.txt."}
open(f"{here}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
