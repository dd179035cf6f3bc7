"""Writes MANIFEST.json from the checks that exist (development tool)."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "runtime monitor: final-state oracle (independent dense simulator) over random programs",
 "C02": "runtime monitor: density-matrix invariants and pure-state oracle over random programs",
 "C03": "runtime monitor: recorded-measurement trace checker plus statistical Born-rule monitor",
 "C04": "runtime monitor: trace replay of conditioned programs against a reference machine",
 "C05": "AddressSanitizer + UBSan build under hostile workloads, with guard-zone monitors",
 "C06": "runtime monitor: matrix oracle with random parameters and aliasing probes",
 "C07": "runtime monitor: reference unitaries with mutation histories",
 "C08": "runtime monitor: reference unitaries of created operations over random source circuits",
 "C09": "runtime monitor: trace of appended operations against a reference splice",
 "C10": "runtime monitor: reference model of variable binding over random histories",
 "C11": "runtime monitor: online state-machine checker over random context histories with faults",
 "C12": "runtime monitor: model-based (list) checker over random register histories",
 "C13": "runtime monitor: model-based checker over random register/bit bookkeeping histories",
 "C14": "runtime monitor: uniqueness and equality monitors over recorded identifiers",
 "C15": "runtime monitor: independent OpenQASM interpreter as oracle over random programs",
 "C16": "runtime monitor: independent QIR reader and round-trip oracle over random programs",
 "C17": "runtime monitor: module model checked after every step of random histories",
 "C18": "runtime monitor: before/after snapshots and replayed runs over interleaved histories",
 "C19": "runtime monitor: model of the stored state over random set/read histories",
 "C20": "runtime monitor: compiled generated kernels against dense operators, guard zones",
 "C21": "runtime monitor: list model of operation equality, append and removal over histories",
 "C22": "runtime monitor: descriptor model over random class hierarchies and access orders",
}
NOTE = {}
checks = []
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = []
for pid in ids:
    if not os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "check under construction"})
        continue
    cmd = f"/opt/venv/bin/python checks/{pid.lower()}.py"
    checks.append({
        "property": pid, "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
        "technique": TECH[pid], "level": "exploration",
        "level_note": NOTE.get(pid, "Held on the executions counted in the evidence file: a deciding oracle "
        "observes every one of them; says nothing about inputs the workload does not reach. Trusts the "
        "reference models in lib/, numpy and the compiler."),
    })
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python lib/selfcheck.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every monitor observes through the public API of a scratch build of "
              "/repo's working tree. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
