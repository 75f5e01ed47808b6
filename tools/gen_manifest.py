#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
SCHED = "stateless model checking of the real code under a controlled scheduler: every interleaving, with state caching and partial-order reduction"
FAULT = "exhaustive fault injection and interleaving exploration of the real code under a controlled scheduler"
HIST = "exhaustive exploration of every message history up to a depth, on the real code under a controlled scheduler and clock"
ENUM = "exhaustive enumeration of bounded inputs on the real code against a reference model"
BOUND = ("Exhaustive within the scenarios, alphabets and depths DESIGN.md names. Trusts the stand-ins for std and crossbeam-channel; "
         "outcomes are compared with runs of the real crate on real threads, sockets and pipes on every run.")
VALUES = "Exhaustive within the alphabets and bounds DESIGN.md names, on the real crate itself. Trusts serde_json and the reference model."
T = {
    "P01": (SCHED, BOUND), "P02": (SCHED, BOUND),
    "P03": ("exhaustive exploration of every token sequence of the framing alphabet and every cut into reads, on the real code", BOUND),
    "P04": ("exhaustive exploration of messages, write sizes and schedules on the real code under a controlled scheduler", BOUND),
    "P05": (FAULT, BOUND), "P06": (SCHED, BOUND), "P07": (SCHED, BOUND), "P08": (SCHED + "; deadlocks are stuck states", BOUND),
    "P09": (SCHED + "; a timer may expire at every moment", BOUND),
    "P10": ("exhaustive exploration of operation sequences against a reference queue, and of all interleavings of two threads", BOUND),
    "P11": (HIST, BOUND), "P12": (HIST, BOUND), "P13": (HIST, BOUND),
    "P14": (ENUM, VALUES), "P15": (ENUM, VALUES), "P16": (ENUM, VALUES), "P17": (ENUM, VALUES),
    "P18": (ENUM + "; the relations are checked on all pairs and triples", VALUES), "P19": (ENUM, VALUES),
    "P20": (ENUM + ", by number of deviations", VALUES), "P21": (ENUM + ", by number of deviations", VALUES),
    "P22": ("explicit-state exploration: every setter in every reachable state of every type, against a reference model", VALUES),
    "P23": (ENUM, VALUES), "P24": (FAULT, BOUND), "P25": (SCHED, BOUND), "P26": (FAULT, BOUND), "P27": (SCHED + ", with a subscriber that formats everything logged", BOUND),
}
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "../properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "checks": [
        {
            "property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
            "evidence_file": f"evidence/{p}.json", "technique": T[p][0], "level": "model_checking", "level_note": T[p][1],
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: the checks compile /repo/bsp-server/src as it is, against stand-ins for std and crossbeam-channel (mc/), and as a dependency (mc/real).",
}
with open(os.path.join(here, "../MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
