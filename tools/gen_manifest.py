#!/usr/bin/env python3
"""Writes MANIFEST.json. Claimed = every property for which a world exists (see CLAIMED)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
CLAIMED = ["P%02d" % i for i in range(1, 20)] + ["C%02d" % i for i in range(1, 8)]
NA = {
    "N01": "a pure function of one input file (translation validity of arbitrary schemas): no schedule, clock, fault, I/O history or second party for the property to depend on; the simulator's schema corpus is compiled on every run, but that is example testing, not simulation",
    "N02": "a pure function of one input file (diagnostics of the parser): no schedule, fault or interleaving takes part; damaged inputs are only judged for termination and safety (C06)",
    "N03": "a pure function of one value (number <-> text conversion); hops through both formats in P14 and the comparison with the reference in P19 exercise it, but the property itself has no schedule, fault or interleaving",
}
NOTE = {
    "lib": "Seeded search, not proof: holds on the simulated runs. Real spb headers and real generated code (generated by the real spb-protoc of the tree) run under AddressSanitizer; byte streams, allocator and scheduling are simulated. Trusts the schema corpus in lib/proto, clang 18 and the oracle in lib/.",
    "protoc": "Seeded search, not proof: holds on the simulated runs. The real compiler sources run in process under a simulated operating system (every file system call is trapped); trusts the simulated file system's semantics and clang 18.",
}
TECH = {
    "default": "deterministic simulation with fault injection, seeded schedule/fault search",
}
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py tool",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check builds its simulator from /repo's working tree into /verif/build (ignored by git). bin/check ID runs one property, bin/replay FILE replays a reported violation. No hooks in /repo: all seams (reader/writer callbacks, allocator, system calls, compiler-inserted basic-block callbacks) exist outside it.",
}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        kind = "protoc" if i.startswith("C") else "lib"
        m["checks"].append({
            "property": i,
            "quick_cmd": f"python3 bin/check {i} --tier quick",
            "thorough_cmd": f"python3 bin/check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(i, TECH["default"]),
            "level": "exploration",
            "level_note": NOTE[kind],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "its simulated world is not built yet")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid")
except ImportError:
    pass
