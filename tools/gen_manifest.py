#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
BASE = "Bounded exhaustive: holds for every case inside the stated bounds (listed in the evidence file), nothing is claimed beyond them. Trusts the reference model in the harness, the compiler, and shim/stim.h as stand-in for stim's parser and file formats."
T = {
 "C01": ("exhaustive enumeration of graphs x syndromes on the real decoder, judged by an exact DP over edge subsets", BASE),
 "C02": ("exhaustive enumeration of signed-weight graphs x syndromes on the real decoder, judged by an exact DP", BASE),
 "C03": ("exhaustive enumeration of graphs x (un)satisfiable and out-of-range syndromes x entry points, with follow-up decodes", BASE),
 "C04": ("exhaustive enumeration of decode-call histories up to a depth, compared call by call with fresh decoders", BASE),
 "C05": ("exhaustive enumeration of graphs x syndromes through decode-to-edges, judged by an exact DP", BASE + " One genuine defect is listed in KNOWN_FINDINGS.txt (omitted negative self-loops)."),
 "C06": ("exhaustive enumeration of graphs x syndromes through decode-to-matched-events, judged by exact distances and DP", BASE),
 "C07": ("exhaustive enumeration of observable placements around the word size x syndromes, judged by parity over optimal edge sets", BASE),
 "C08": ("exhaustive enumeration of small correlated error models x syndromes x histories against a reference two-pass model", BASE),
 "C09": ("exhaustive enumeration of weight magnitudes, scales and subdivided (very long) graphs x syndromes, exact integer oracle", BASE),
 "C10": ("exhaustive enumeration of insertion/merge sequences up to a depth against a reference graph", BASE),
 "C11": ("exhaustive enumeration of graphs x boundary sets x boundary-change sequences x syndromes against the contracted graph", BASE),
 "C12": ("exhaustive enumeration of short detector error models against a reference loader", BASE),
 "C13": ("exhaustive enumeration of small check matrices x options through the real Python layer, against a reference loader and an exact DP", BASE + " The binding sources run on shim/pybind11, a stand-in for pybind11."),
 "C14": ("exhaustive enumeration of shot arrays x packing x options through the real Python layer, row by row", BASE + " The binding sources run on shim/pybind11, a stand-in for pybind11."),
 "C15": ("exhaustive enumeration of shot lists x formats x options through the real command-line entry point on scratch files", BASE),
 "C16": ("explicit-state exploration of all queue operation sequences up to a depth against a sorted multiset", BASE),
 "C17": ("explicit-state exploration of all tracker/queue operation sequences up to a depth against a set of wanted events", BASE),
 "C18": ("exhaustive enumeration of graphs x end points x boundary sets x query pairs against all-pairs shortest paths", BASE),
 "C19": ("exhaustive enumeration of the 8-bit cyclic domain and corner products of wider types against integer arithmetic", BASE),
 "C20": ("exhaustive enumeration of random-draw scripts through an interposed random source, and of all seeds in a range", BASE + " Flip frequencies are judged at 6.5 standard deviations over the enumerated seeds."),
 "C21": ("exhaustive enumeration of call sequences and graphs under ASan/UBSan with exact live-memory accounting", BASE + " Memory errors are what AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions detect."),
 "C22": ("exhaustive enumeration of interleavings of graph changes and calls against graphs built from scratch", BASE),
 "C23": ("exhaustive enumeration of small graphs and attribute patterns through the real Python export/import", BASE + " The binding sources run on shim/pybind11, a stand-in for pybind11; rustworkx is a stand-in with its documented PyGraph behaviour."),
 "C24": ("exhaustive enumeration of syndromes x input forms x decode methods through the real Python layer against an exact DP", BASE + " The binding sources run on shim/pybind11, a stand-in for pybind11."),
}
PYN = " The binding sources run on shim/pybind11, a stand-in for pybind11; stim's Python package is a stand-in holding the model text."
T["C25"] = ("exhaustive enumeration of short error models x loading entry points x syndromes, and of command lines, through the real Python layer", BASE + PYN)
T["C26"] = ("explicit-state exploration of all construction-call sequences up to a depth through the real Python layer against a reference graph", BASE + PYN)
T["C27"] = ("exhaustive enumeration of call interleavings of separate users, and of thread schedules with bounded preemptions of the real code under a controlled scheduler, with dependent-access (partial-order) analysis", BASE + " Threads are serialised by a scheduler in harness/rt27.cc at compiler-inserted access and function-entry hooks; accesses inside libc and libstdc++ binaries are not scheduling points.")
T["C28"] = ("exhaustive enumeration of graphs x syndromes x frame settings; every frame of the real animation is read back as a state of the decoder and checked, the last one against an exact DP optimum", BASE)
HAVE = {i for i in ids if os.path.exists(os.path.join(HERE, "harness", i.lower() + ".cc")) or os.path.exists(os.path.join(HERE, "pyharness", i.lower() + ".py"))}
checks = [{"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
           "evidence_file": "evidence/%s.json" % i, "technique": "model checking: " + T[i][0], "level": "model_checking", "level_note": T[i][1]}
          for i in ids if i in HAVE]
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": "explorer not built yet"} for i in ids if i not in HAVE],
     "notes": "No hooks in /repo; /repo carries only 'fix:' commits. Replay a violation with the replay_cmd in its replay file."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
