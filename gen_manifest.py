#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
H = "random histories against a reference model"
A = "allocation monitor (red zones, poisoning, layout check at free)"
T = {
 "C01": "runtime monitoring: histories against a reference model; exhaustive small words; 2^26..2^32 recyclings of one id with a bitmap of versions seen",
 "C02": "runtime monitoring: histories with unique stamped values against a reference model, exhaustive small words over page-border alphabets",
 "C03": "runtime monitoring: histories against a set model of every entity's components, exhaustive small words",
 "C04": "runtime monitoring: every query outcome compared with the model's matching set (exactly-once, values, handles), exhaustive small words",
 "C05": "runtime monitoring: tag histories against a set model, exhaustive small words, filter_tag over thousands of untagged entities",
 "C06": "runtime monitoring: list queries over generated lists (dead, repeated, foreign-component handles) against the model, exhaustive small words",
 "C07": "runtime monitoring: order groups against a list model walked in both directions, exhaustive small words",
 "C08": "runtime monitoring: ordered queries against the list model filtered by component sets, exhaustive placements",
 "C09": "runtime monitoring: resource-store histories with drop-counted, uniquely stamped values (exactly-once accounting)",
 "C10": "sanitizers: Miri (tree borrows), AddressSanitizer, monitored allocator and std's debug-mode unsafe-precondition checks, over generated histories (thorough: also valgrind memcheck)",
 "C11": "runtime monitoring: address monitor over generated size/alignment mixes (alignment, bounds against the allocation table, pairwise disjointness)",
 "C12": "runtime monitoring: archetypes built in generated ways compared with set algebra",
 "C13": "runtime monitoring: allocation accounting (conservation, layout at free) and population cycles with a footprint bound",
 "C14": "runtime monitoring: fault calls injected into histories, panics caught, whole state compared before and after",
 "C15": "runtime monitoring: calls through dead handles injected into histories, whole state compared before and after",
 "C16": "runtime monitoring: len and size_hint compared with the items left at every step of every iteration",
 "C17": "runtime monitoring: reused, interleaved and abandoned query objects compared with fresh ones over several stores",
 "C18": "runtime monitoring: differential execution of one history at several capacities and beside other stores",
 "C19": "runtime monitoring: differential execution, observation traces of debug and release builds compared history by history",
 "C20": "runtime monitoring: real compiler's verdict on generated type definitions, accepted ones are run",
}
NOTE = {
 "C10": "No report from any of the four detectors on the histories run; the detectors see what the generated histories reach, Miri only some dozens of them per run. Trusts Miri, LLVM's AddressSanitizer and the harness's allocator.",
 "C13": "Conservation is judged over all allocations made between creation and drop by library calls; growth bound judged over cycles that repeat until the footprint settles.",
 "C20": "Exact for the definitions generated; generics are outside the property.",
}
checks = []
for p in sorted(T):
    checks.append(dict(property=p, quick_cmd="python3 check.py --prop %s --tier quick" % p, thorough_cmd="python3 check.py --prop %s --tier thorough" % p,
        technique=T[p], level="exploration",
        level_note=NOTE.get(p, "Held on the histories run (counts in the evidence file), debug and release builds; nothing is claimed about others. Trusts the reference model and the generators in harness/.")))
json.dump(dict(version=1, setup_cmd="python3 check.py --build dbg,rel", checks=checks, not_applicable=[],
    notes="Black-box monitoring through the public API: no hooks in /repo. Checks build harness/ against /repo's working tree into /verif/build (ignored by git)."),
    open("/verif/MANIFEST.json", "w"), indent=1)
