#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of checks below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = "deterministic simulation with fault injection (seeded schedules, crashes and I/O faults; failures minimised to a replay file)"
COMMON = (" The real ticat sources are compiled against a simulated kernel (processes, goroutines, files, pipes, clock, signals) that one seed drives;"
          " only generated workloads, schedules and faults are covered, never all of them. Trusted: the simulated system calls, the script"
          " language standing in for bash, the mini git, and that a crash loses nothing already written (no power-loss model).")
NOTE = {
 "C01": "Generated flows of scripts, builtins, nested flows and nested ticat calls are compared with a small reference executor; every system call of the fault-free run is a possible fault site.",
 "C02": "Programs mixing failing scripts, unstartable runners, panics and allowed failures; the exit status and the last command run are judged against a reference executor.",
 "C03": "After every file operation the env file is parsed and must be one of the complete versions; crash, torn write, lost rename, disk full and concurrent writers are injected.",
 "C04": "Random key/value pairs of awkward shapes are saved and loaded by later processes, with short reads, read errors and full disks.",
 "C05": "Histories of snapshot save, load, remove and list, also concurrent, against a small map model.",
 "C06": "Flow files are judged after every file operation, stored flows are run by a later process and compared with running them directly.",
 "C07": "Histories of flow.save, rename, remove, clear and moves with answers, existing targets, another device and faults; each content must survive unless given up.",
 "C08": "Histories of hub commands against a list model, with faults, crashes and concurrent hub commands; the list file is judged after every file operation.",
 "C09": "hub.add/init/update over a simulated git whose calls fail, hang up or are killed at any step; then the faults stop and the retry has to succeed.",
 "C10": "The status file is read by an independent parser after the run, after crashes at any operation, and through `sessions`; it is compared with what really ran.",
 "C11": "Failing and crashing flows are retried until they converge; what ran and which env it saw is compared with one undisturbed run.",
 "C12": "Running, ended, old and recent sessions with clock steps and concurrent starts and removals.",
 "C13": "Two to five ticat processes at once under seeded schedules; each is compared with running alone.",
 "C14": "Flows with %delay under seeded goroutine schedules; start times, counts and waiting are checked against the simulated clock.",
 "C15": "Background commands and main flow change the same env keys under seeded schedules; every script's env is compared with a model.",
 "C16": "Scripts print numbered lines in background and foreground; the complete output is taken apart again.",
 "C17": "Random sequences of waits over random background commands; return times are compared with the real ends.",
 "C18": "Sessions that end in every way, with hooks that record or fail.",
 "C19": "Scripts change, delete and read env through the session file, in flows, sub-flows and nested ticat calls; every script's env is compared with a model.",
 "C20": "Breakpoints, steps and confirmations answered in all ways by a simulated user, also late, wrong and by end of input.",
 "C21": "Script output of many shapes and sizes is compared with its log file and the screen, with I/O faults on the log.",
 "C22": "Broken, torn, unreadable and conflicting meta, flow and help files among good ones; several starts under different map orders.",
 "C24": "Sets of tagged commands of all kinds are run by selftest, in sequence and in parallel; every script's env is compared with a model in which each test starts anew.",
 "C23": "Timers and sleeps against the simulated clock, foreground and background, with awkward durations.",
}
NA = {
 "C30": "A pure function of the command line: no schedule, clock, I/O or fault can influence the result, so simulating any of them decides nothing; input generation alone would be another technique.",
 "C31": "A pure function of the command tree and the abbreviation: nothing a simulator controls takes part in it.",
 "C32": "A pure function of the parsed flow and the declared env operations: nothing a simulator controls takes part in it.",
 "C33": "A pure function of template, arguments and env values: nothing a simulator controls takes part in it.",
 "C34": "A pure function of the command tree and the search strings: nothing a simulator controls takes part in it.",
}
src = "".join(open(os.path.join(V, "sim/harness", f)).read() for f in sorted(os.listdir(os.path.join(V, "sim/harness"))) if f.startswith("props_"))
import re
level = dict(re.findall(r'ID: "(C\d+)", Level: "(\w+)"', src))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif p not in level:
        na.append({"property": p, "reason": "The check is not built yet."})
    else:
        checks.append({"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": level[p], "level_note": NOTE[p] + COMMON})
m = {"version": 1, "setup_cmd": "bash sim/build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: each check compiles a rewritten copy of /repo's current Go sources against the simulator (sim/rewrite, sim/rt, sim/shim); /repo itself is only read."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "not applicable")
