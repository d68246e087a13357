#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from registry import CHECKS
T = {
    "C01": "bounded exhaustive exploration of calls (implementation x block count x alignment x content) on the real code against a reference",
    "C02": "bounded exhaustive exploration of calls against guard pages with register and stack monitors",
    "C03": "exhaustive enumeration of simulated processors (QEMU models x feature bits x cpuid leaves), library executed on each",
    "C04": "stateless exploration of thread schedules on the real code: instruction-level controlled scheduler, all single preemptions (double for short operations); write-independence of every other operation by memory protection",
    "C05": "bounded exhaustive exploration of chunk counts x limits x implementations against a reference tree",
    "C06": "bounded exhaustive exploration of list sizes x limits x kinds x implementations against a reference",
    "C07": "bounded exhaustive exploration of values of every type: round trips on the real code",
    "C08": "bounded exhaustive exploration of values of every type against an independent encoder",
    "C09": "bounded exhaustive exploration of byte strings (all short ones; all single and paired edits of valid encodings) against an independent decoder",
    "C10": "the byte strings of C09 enumerated against the sanitized real code, with every later use of the object",
    "C11": "bounded exhaustive exploration of values of every type against an independent root computation",
    "C12": "bounded exhaustive exploration of pairs of values that differ in one place",
    "C13": "bounded exhaustive exploration of values and of single damages of documents against an independent document model",
    "C14": "exhaustive enumeration of texts over a small alphabet, digits, positions and lengths, plain and sanitized builds",
    "C15": "exhaustive enumeration of small operands and boundary operands of every operator",
    "C16": "exhaustive enumeration of epoch and balance combinations against the specification's predicates",
    "C17": "exhaustive enumeration of epoch quadruples, field differences and index sequences against the specification's predicates",
    "C18": "exhaustive enumeration of all 8, 16, 32 bit values and all 64-bit neighbourhoods of squares in the bounds",
    "C19": "explicit-state model of two objects; every operation sequence to a depth replayed on the real types",
    "C20": "exhaustive enumeration of types x previous memory contents",
    "C21": "exhaustive enumeration of constants x presets",
    "C23": "exhaustive enumeration of fields and elements x value shapes: single reads and writes against a reference",
    "C24": "the enumerations of the types and operations repeated on five builds (compilers, optimization levels)",
    "C25": "exhaustive fault injection: every allocation of every operation of every type refused once",
    "C26": "the byte strings of C09 enumerated with every allocation counted",
    "C27": "exhaustive enumeration of link orders x times of use x types",
    "C28": "exhaustive enumeration of types x growing lists x operations with all work counted (control flow edges, bytes moved, blocks hashed)",
}
N = {
    "C04": "Every schedule with one preemption of a thread in front of any instruction of the library is executed; short operations also with one preemption of the other thread. Every operation of every type is also executed with all memory it could share read-only; those that write any are explored at their accesses to it. Trusts the single-stepping scheduler in mc/sched.hpp and assumes sequentially consistent memory.",
    "C19": "Every sequence of 21 operations to depth 3 (types of more than 4000 bytes: 2), and of ten of them to depth 4 with any last one, from the initial state of two objects, for every type of the minimal preset, is executed on the real code and compared with the model.",
}
checks = []
for p in sorted(CHECKS):
    a = CHECKS[p]["assumptions"]
    note = N.get(p) or "Every case within the bounds stated in the evidence's families is executed on the code of the working tree and judged; nothing is sampled."
    note += " Assumes: " + "; ".join(a) + "."
    checks.append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": T[p], "level": CHECKS[p]["level"], "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": "C22", "reason": "There is no transition code in this tree: beacon-chain/main.cpp includes beacon-chain/transaction.hpp, which does not exist, so there are no executions to explore."}],
     "notes": "No hooks in /repo. Bounds, oracles and detection results are in DESIGN.md; defects found and repaired are in known_findings.txt."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
