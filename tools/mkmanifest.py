#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = "deterministic simulation with fault injection: the real metamodel command runs with every system call served by a seeded simulated machine (disk, clock, processes, formatter, crashes)"
CLIENT = "deterministic simulation with fault injection: generated clients run in virtual time under a seeded scheduler against a simulated transport, server, readers and writers"
claimed = {
 "C01": (TOOL, "Seeded search over I/O and formatter failures at every system call that writes, against the fault free run and an independent list of files and declarations."),
 "C02": (TOOL, "Seeded search over failures of every system call that reads the model; what was read is recomputed from the history of system calls."),
 "C03": (TOOL, "Seeded search over stored-byte faults; the oracle is an independent recogniser of the language and a canonical rewriting of the surviving declarations."),
 "C04": (TOOL, "Seeded search over pairs of machines (hash seeds, directory order, clock, goroutine order, locations, environment, older output); byte comparison."),
 "C05": (TOOL, "Seeded search over crash points and power losses, followed by a clean run compared byte by byte with a run into an empty directory."),
 "C06": (TOOL, "Every modifying operation of every simulated run, and the file system after it, are checked; seeded search over faults."),
 "C07": (TOOL, "Seeded search over interleavings of the system calls of two or three processes, kills, temporary name collisions and left overs; comparison with solo runs."),
 "C08": (CLIENT, "Seeded search over sends and re-sends with failures, cancellations and a transport that modifies requests; every request is compared with an independent rendering of the model."),
 "C09": (CLIENT, "Seeded search over answers and deliveries; the oracle is the generated value itself."),
 "C10": (CLIENT, "Seeded search over transport failures, cut, failing, stalled and malformed bodies; the bytes really delivered decide if the call may succeed."),
 "C11": (CLIENT, "Seeded search over error answers and body faults."),
 "C12": (CLIENT, "Every simulated body records reads and closes, on all the paths reached by seeded faults, cancellations and panics of callbacks."),
 "C13": (CLIENT, "Seeded search over moments of cancellation and deadlines in virtual time."),
 "C14": (CLIENT, "Seeded search over histories of answers to polls; the recorded exchanges decide the outcome."),
 "C15": (CLIENT, "Exact comparison of virtual times of polls with seeded latencies, deadlines and cancellations."),
 "C16": (CLIENT, "Seeded interleavings at statement level of tasks that share clients and requests, with network faults."),
 "C17": (CLIENT, "Seeded simulated readers: division, delays, zero reads, failures and ends at any byte; the oracle is the generated value."),
 "C18": (CLIENT, "Seeded simulated writers failing at any byte; strict independent parser of the documents; hash seeds."),
 "C19": (CLIENT, "Seeded histories of builders and objects with concurrent readers; snapshots compared after every step."),
 "C21": (CLIENT, "Seeded conversations between generated clients and simulated servers that use the generated helpers, readers, writers and error helpers, over a faulty network."),
 "C20": (CLIENT, "Seeded simulated response writers failing at any byte; strict parsing of the answer."),
}
NA = {
 "C30": "Pure function of the model: whether generated code compiles does not depend on schedules, time, I/O or faults, so simulation with fault injection would only be random input testing of a compiler run.",
 "C31": "Pure function of the model (agreement of three renderings of it); nothing to schedule or to fail.",
 "C32": "Pure function of the text of the model; no concurrency, time or I/O involved.",
 "C33": "Pure function of names and annotations.",
 "C34": "Pure function of the text of the model.",
}
checks = []
for pid in sorted(claimed):
    t, note = claimed[pid]
    checks.append({"property": pid, "quick_cmd": "./check.sh %s quick" % pid, "thorough_cmd": "./check.sh %s thorough" % pid,
                   "technique": t, "level": "exploration", "level_note": note})
na = [{"property": k, "reason": v} for k, v in sorted(NA.items())]
for line in open(os.path.join(root, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid not in claimed and pid not in NA:
        na.append({"property": pid, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "none: no hooks are committed in /repo; the checks inject them with go build -overlay", "enable": "go build -overlay", "source_commits": []},
           "notes": "See DESIGN.md."}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
