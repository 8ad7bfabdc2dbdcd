#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
plans = open(os.path.join(root, "sim/cmd/drive/plans.go")).read()
built = re.findall(r'^\t"(C\d\d)":', plans, re.M)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {
    "C30": "Validate is a single-threaded pure function of an in-memory model: no schedule, clock, I/O, fault or crash can influence it, so simulating the environment adds nothing to plain tests of its rules. (Its behaviour next to concurrent callers is part of C11.)",
    "C31": "Parsing and printing of one value are pure, synchronous functions of one string: there is nothing for a scheduler or a fault injector to decide. (Their use inside saving and loading is part of C01.)",
    "C32": "MeshBuilder is a single-threaded in-memory index that does no I/O and starts no goroutine: there is nothing to schedule or to fail. (Its use by the STL importer is part of C08.)",
}
NOTE = {
    "C01": "round trip of generated models over shaped streams, drawn map orders and schedules, compared structurally with the model that was saved",
    "C02": "every kind of write-side failure at drawn positions; success is only accepted if the bytes that reached the destination load back as the full model",
    "C03": "simulated disk with torn, lost and reordered sectors, truncations, damaged part data and model documents that end early; success is only accepted with the full model",
    "C04": "read-side failures at drawn positions and times; success is only accepted with the full model",
    "C05": "structurally mutated documents and packages; panics, deadlocks, step and allocation bounds are monitored",
    "C06": "drawn interleavings of the child decoders with bad parts, plus a phase under the race detector",
    "C07": "cancellation and deadlines at drawn moments; bytes read afterwards, result and leftover goroutines are checked",
    "C08": "generated STL streams with shaped and failing reads against a reference parser",
    "C09": "drawn interleavings of the workers against a sequential reference box, plus a phase under the race detector",
    "C10": "drawn interleavings of the workers against a reference set of reports, plus a phase under the race detector",
    "C11": "drawn interleavings of read-only operations on one model against their sequential results, plus a phase under the race detector",
    "C12": "recorded histories of registry operations checked for linearizability, with decodes running meanwhile, plus a phase under the race detector",
    "C13": "random sources that fail or deliver piecemeal, with retries",
    "C14": "drawn interleavings of independent operations against their stand-alone results, plus a phase under the race detector",
    "C15": "packages with drawn sets of invalid values decoded leniently under drawn schedules",
    "C16": "sequences of failing, cancelled and successful decodes with one decoder",
    "C18": "drawn packages rewritten in other notations that say the same, decoded from shaped streams under drawn schedules, compared with the model drawn, saved and loaded again",
    "C17": "open and close counts of simulated handles and part streams on every outcome",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s -tier quick" % i,
            "thorough_cmd": "./check.sh %s -tier thorough" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and inputs of the real code, with minimised replayable failures",
            "level": "exploration",
            "level_note": NOTE[i][0].upper() + NOTE[i][1:] + ". The real code of go3mf and of its packaging library runs, instrumented, under a seeded scheduler and simulated I/O; the assurance is that of the sampled cases (counted in the evidence), not a proof. Preemption happens between statements of that code and at synchronisation and I/O, not inside the standard library.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are committed in /repo: every check copies /repo's working tree, instruments the copy at source level (yield points, simulated sync, os, goroutines and map iteration; see DESIGN.md) and runs it inside the simulator. Replay a failure with ./check.sh -replay FILE.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
