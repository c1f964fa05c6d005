#!/usr/bin/env python3
# Writes MANIFEST.json.
import json
NOTE = {
 "ops": "Seeded search over interruption points at single-instruction granularity in 12 x86-64 compilations and in emulated aarch64, arm, i386, loongarch64, mips (32/64, both endians), powerpc, ppc64le, riscv32/64 and s390x builds; trusts the simulated kernel's rseq rules, the emulators and the reference model; samples, does not enumerate.",
 "reg": "Seeded search over schedules, libc/kernel combinations and system-call failures against a small model of registration; trusts the simulated kernel and libc symbols; sampling.",
 "smp": "Seeded search over sysfs contents, read splits, failures and concurrent first calls against a reference computation; sysfs is simulated; sampling.",
 "pool": "Seeded search over thread interleavings at memory-access granularity, histories, attributes and resource failures against a reference model; heap, locks and placement are simulated, mmap/memfd/madvise/fork are real; sampling.",
 "mem": "Seeded search over litmus programs, widths, schedules, store-buffer drains and stale loads against the sets of outcomes the helpers forbid; trusts the memory-system models (x86/s390 TSO, weaker ones for the others); sampling.",
 "set": "Seeded search over interleavings, exhaustion and growth failures against a reference model of the set; sampling.",
}
import check
checks = []
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    checks.append(dict(property=p, quick_cmd=f"python3 check.py run {p}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py run {p}",
        evidence_file=f"evidence/{p}.json", technique="deterministic simulation with seeded schedule and fault search" , level="exploration", level_note=NOTE[check.PROP_SC[p][0]]))
m = dict(version=1, setup_cmd="python3 check.py build", checks=checks, not_applicable=[],
    notes="No hooks in /repo: the simulator takes the unmodified sources and redirects the objects' imports at link level. Repairs of genuine defects are the fix: commits listed in known-findings.txt.")
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
