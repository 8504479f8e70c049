#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of monitors below; a property whose monitor
binary does not exist is listed as not claimed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = "runtime monitor: "
T = {
 "F01": "differential monitor against a bit-by-bit integer model on hostile operands, overflow checks on",
 "F02": "codec monitor against the canonical-integer oracle on boundary and hostile strings",
 "F03": "defining-equation oracle on every inversion, root and batch; loop-depth directed inputs",
 "F04": "valgrind memcheck run of every operation on operands marked undefined: any branch or address that depends on them is reported",
 "C01": "differential monitor against an affine integer model of the group over adversarial representatives",
 "C02": "equality/selection monitor judged by the model elements the operands were built from",
 "C03": "codec monitor against an independent decoder (model square roots)",
 "C04": "challenge-expansion monitor against Eisenstein-integer coefficients; endomorphism oracle",
 "U01": "discrete-log oracle on multi-exponentiations under varied processor counts",
 "U02": "schoolbook oracle on polynomial products under varied processor counts",
 "U03": "closed-form and discrete-log oracles on folding helpers under varied processor counts",
 "R01": "lock-step monitor of the sponge against an independent duplex Rescue implementation",
 "R02": "influence monitor: twin sponges differing in one absorbed element, output relation search",
 "R03": "recorded constraint systems: honest witness oracle plus adversarial re-solver",
 "S01": "backend event recorder compared with an independent circuit interpreter",
 "S02": "two-way evaluation oracle on the circuit polynomial of generated circuits",
 "S03": "random expression programs evaluated in the model and through linear combinations",
 "D01": "development checker run on satisfied and mutated circuits against an independent verdict",
 "D02": "divergence injection and independent namespace accounting",
 "G01": "exhaustive truth tables plus adversarial re-solver on recorded systems",
 "G02": "integer oracle plus adversarial re-solver on recorded systems",
 "G03": "independent SHA-256 oracle plus adversarial re-solver on recorded systems",
 "G04": "integer oracle plus adversarial re-solver and alternative-decomposition witnesses",
 "G05": "field oracle plus adversarial re-solver on recorded systems",
 "G06": "group-law oracle on honest witnesses of every point gadget over case-covering inputs",
 "G07": "adversarial re-solver against every point gadget, judged by the group-law oracle",
 "G08": "word-arithmetic oracle plus adversarial re-solver on recorded systems of word programs",
 "P01": "end-to-end monitor: prover, verifier and leftover checks over chains of proofs",
 "P02": "fault injection into every field of valid proofs, judged by the full verification procedure",
 "P03": "statement substitution against the full verification procedure",
 "P04": "single-field corruption of leftovers and deferred values, recomputation oracle",
 "P05": "malicious-prover executions (adaptive cheating prover) watched for acceptance",
 "P06": "well-formedness monitor over created parameters; evaluation oracle",
 "P07": "crash monitor (panic, overflow, hang) over hostile proof data",
 "P08": "transcript-influence monitor: challenges observed through crafted verifier runs",
 "P09": "opening argument run against an oracle that re-evaluates its equations under the drawn challenges",
 "Z01": "recorded step circuits of honest recursion steps judged constraint by constraint",
 "Z02": "recorded step circuits of corrupted recursion steps watched for satisfaction",
 "T01": "ThreadSanitizer and Miri runs (AddressSanitizer too in the thorough tier) plus a differential monitor under pretended processor counts, injected delays and recorded schedules",
}
NOTE = ("Decides on executions: holds for every case listed in the evidence file and says nothing about inputs not "
        "explored. Trusts rustc, std and the independent models in harness/src (self-checked at start-up).")
checks, na = [], []
for pid, t in T.items():
    if os.path.exists(f"{ROOT}/harness/src/bin/{pid.lower()}.rs"):
        checks.append({"property": pid, "quick_cmd": f"bash check.sh {pid}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {pid}",
                       "technique": MON + t, "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": pid, "reason": "monitor not built yet"})
m = {"version": 1,
     "setup_cmd": "cd harness && cargo build --release --offline --locked",
     "hooks": {"guard": "cfg(halo_verif)", "enable": "harness/.cargo/config.toml passes --cfg halo_verif to rustc for every harness build",
               "source_commits": ["HOOK"]},
     "checks": checks, "not_applicable": na,
     "notes": "check.sh builds one monitor against /repo's working tree and runs it; known findings are in known_findings.txt."}
import subprocess
h = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "-i", "--grep=verification hook"], capture_output=True, text=True).stdout.split()
m["hooks"]["source_commits"] = h
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
