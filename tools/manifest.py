#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
tech = {
 "C10": "runtime monitoring: Go race detector over concurrent workloads, results compared with sequential runs",
 "C27": "sanitizers: guard pages, canaries, checkptr instrumentation and AddressSanitizer over all buffer operations",
 "C30": "runtime monitoring: allocation, goroutine, descriptor, finalizer and live-heap monitors over long runs of the real operations",
 "C31": "runtime monitoring: constructed objects and random sequences on pools judged by a model of ownership, invalid arguments must panic",
}
default = "runtime monitoring: exact reference-model oracle over diverse and hostile workloads on the real code"
notes = {
 "C21": "Statistical bounds at 6+ standard deviations and exact collision detection over all masks and keys of the run; it trusts the recorded ciphertexts only.",
 "C10": "Races and wrong results on the interleavings that occurred, at several processor counts; trusts the race detector.",
 "C27": "Accesses outside buffers on the executed operations; trusts the MMU, checkptr and AddressSanitizer.",
 "C30": "Retention and growth on the operations and numbers of calls executed; thresholds are in the evidence file's assumptions; trusts the Go runtime's statistics and finalizers.",
}
dnote = "Held on the executions observed (counts and samples in the evidence file), judged by an exact model written independently of the library; inputs outside the workload are not covered."
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(root, "harness/cmd", i.lower(), "main.go")):
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
            technique=tech.get(i, default), level="exploration", level_note=notes.get(i, dnote), evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i, reason="its monitor is not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh",
  hooks=dict(guard="verif", enable="no hooks are needed: the monitors observe the exported API of the unmodified packages", source_commits=[]),
  checks=checks, not_applicable=na,
  notes="See DESIGN.md. Known findings and fixed defects: known_findings.json.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
