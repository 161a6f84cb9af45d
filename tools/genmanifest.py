#!/usr/bin/env python3
"""MANIFEST.json from props.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS
titles = {d["id"]: d["title"] for d in map(json.loads, open(os.path.join(H, "properties.jsonl")))}
NA = {
    "C30": "sort and binary search are single-threaded pure functions of one array: no schedule, time, I/O, crash or fault can change their result, so simulation decides nothing that plain input generation would not (their freedom from hidden shared state is C18, concurrent readers C19)",
    "C31": "number formatting is a pure function of its argument with no scheduling, time, I/O or fault behaviour (concurrent use is C18; the text that reaches the stream is C11)",
    "C32": "decoders are pure functions of one buffer supplied whole; there is no stream, fault or schedule inside them (concurrent use is C18)",
    "C33": "enum and type names are compile-time tables: nothing at run time is nondeterministic (concurrent use is C18/C19)",
    "C34": "geometric predicates are pure integer functions; no schedule, time or fault enters (their use in the mesh is C20, C23 and C24)",
    "C35": "box queries are pure functions of a sorted array (concurrent readers are C19)",
    "C36": "fixed-point math is pure arithmetic with no nondeterminism to simulate",
    "C37": "random generators are explicit-state pure functions of their seed: no clock, entropy source or shared state is involved (concurrent use is C18)",
    "C38": "bit sets are plain single-owner memory with no concurrency contract beyond C18/C19",
    "C39": "names are split from one constant string by a pure function (what reaches the stream is C11)",
}
checks = []
for p in sorted(PROPS):
    s = PROPS[p]
    checks.append(dict(property=p, quick_cmd=f"python3 /verif/check.py run {p} --tier quick", thorough_cmd=f"python3 /verif/check.py run {p} --tier thorough",
                       technique="deterministic simulation with fault injection: seeded search over schedules, memory-model choices, faults and inputs; " + s["what"],
                       level="exploration",
                       level_note=f"real code: {', '.join(s['real'])}; seeded random runs ({s['quick'][0]} quick, up to {s['thorough'][0]} thorough), every failure replayed bit-exactly and minimised; no claim beyond the runs explored"))
m = dict(version=1, setup_cmd="python3 /verif/check.py selftest", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
