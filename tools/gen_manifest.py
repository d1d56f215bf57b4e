#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "P01": "runtime monitor: reference-model oracle over executions of the sanitized library (ASan+UBSan) on random lattices, grids, tensors",
 "P02": "runtime monitor: dense-diagonalisation oracle over executions of the sanitized solver and program on random structures and solver settings",
 "P03": "runtime monitor: dense-diagonalisation oracle over sanitized targeted solves",
 "P04": "runtime monitor: parity-sector oracle over sanitized runs of mirror-symmetric structures",
 "P05": "runtime monitor: averaging-rule oracle over the tensors stored by the sanitized library and program",
 "P06": "runtime monitor: field-equation and conservation oracles over fields recorded from sanitized runs",
 "P07": "runtime monitor: derivative oracle over velocities recorded from sanitized runs",
 "P08": "runtime monitor: differential execution of three sanitized builds with a comparison oracle",
 "P09": "runtime monitor: differential execution under mpirun with 1..n sanitized processes against the serial program",
 "P10": "runtime monitor: metamorphic oracle over pairs of sanitized runs",
 "P11": "runtime monitor: round-trip oracle and fault injection (malformed files) over sanitized runs",
 "P12": "runtime monitor: reference-interpolation oracle over outputs of the sanitized tool, hostile inputs included",
 "P13": "runtime monitor: offline checker over the event log (stdout and callbacks) of sanitized runs",
 "P14": "runtime monitor: partition, minimality and root oracles over sanitized runs and the splitting script",
 "P15": "runtime monitor: reference-interpolation and derivative oracles over sanitized runs",
 "P16": "runtime monitor: group-theoretic oracles over overlaps recorded from sanitized runs",
 "P17": "sanitizers (ASan+UBSan) under random sequences of interface calls with hostile arguments",
 "P18": "runtime monitor: numpy oracle and guard regions over the sanitized matrix library",
 "P19": "runtime monitor: differential execution of session histories against fresh sessions",
 "P20": "runtime monitor: reference-model oracle over eigenvector operations in sanitized runs",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append({"property": i, "quick_cmd": "./run.sh %s --tier quick" % i, "thorough_cmd": "./run.sh %s --tier thorough" % i,
                       "technique": T[i], "level": "exploration",
                       "level_note": "random and hostile workloads from VERIF_SEED; oracle judges every observed execution; bounds in DESIGN.md"})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3-vt lib/vbuild.py complex:mpb inv:mpb herm:mpb mpi:mpb complex:driver inv:driver herm:driver complex:data",
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds /repo's current sources out of tree under /verif/build with ASan and UBSan (cached by content), runs its workload and judges what it observed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
