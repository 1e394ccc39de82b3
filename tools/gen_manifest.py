#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with seeded fault injection: "
CHECKS = {
 "C01": ("the encoders write into a simulated sink whose every call is split, interrupted or failed by seed; byte-exact comparison with the in-memory encoding",
         "seeded search, not exhaustive; sinks with every error kind, sticky or once, at every call position"),
 "C02": ("saves run on a simulated disk behind the C library's calls (errors, short writes, full disk); whole-disk comparison afterwards",
         "seeded search; close() errors are out of reach (std drops them)"),
 "C03": ("opening and detection run on a simulated disk or stream with seeded read splits and signals; differential oracle against whole reads, memory and the documented signatures",
         "seeded search over contents, names and read schedules"),
 "C04": ("hard errors at seeded opens, reads and seeks of the simulated disk; error-kind oracle and recovery afterwards",
         "seeded search; pure position queries are never failed"),
 "C05": ("the simulated process dies at a seeded system call of a save or the file is cut; the restarted process opens it",
         "seeded search; process crash model, no reordering of written data"),
 "C06": ("seeded corruption of stored bytes on the simulated disk, run under a basic-block step budget and allocation limits",
         "seeded search; pictures of 4M to 1G declared pixels are left out; native code bounded by wall clock only"),
}
for extra in ("C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19"):
    p = os.path.join(root, "tools", "checks", extra + ".txt")
    if os.path.exists(p):
        a, b = open(p).read().strip().split("\n")
        CHECKS[extra] = (a, b)
NA = {
 "C30": "pure function of one colour: no schedule, I/O, time, fault or second party it could depend on",
 "C31": "pure function of one image: no schedule, I/O, time, fault or second party it could depend on (its independence from concurrent and earlier calls is part of C09)",
 "C32": "pure functions of one or two images: no schedule, I/O, time, fault or second party they could depend on (their independence from concurrent and earlier calls is part of C09)",
 "C33": "pure function of one string: no schedule, I/O, time, fault or second party it could depend on",
 "C34": "pure function of one image: no schedule, I/O, time, fault or second party it could depend on",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
na = []
for p in props:
    if p["id"] in CHECKS:
        continue
    na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
m = {
 "version": 1,
 "setup_cmd": "bash check.sh build",
 "checks": [{
   "property": k,
   "quick_cmd": f"bash check.sh {k} quick",
   "thorough_cmd": f"bash check.sh {k} thorough",
   "technique": T + v[0],
   "level": "exploration",
   "level_note": v[1],
 } for k, v in sorted(CHECKS.items())],
 "not_applicable": na,
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
