#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
SIM = "the real library talks over loopback TCP/UDP to a simulated robot written from the protocol definition; "
C = {
 "C01": ("stateful generated control sessions against a simulated robot, reference limiter as oracle", SIM + "assurance is statistical over tens of thousands of generated sessions; trusts the simulator and the independent reference limiter; comparisons within stated rounding tolerances"),
 "C02": ("stateful generated control sessions against a simulated robot, reference vector limiter as oracle", SIM + "statistical; small rotation angles are compared within 3e-7 rad because the library measures them with acos; half-turn jumps within 1e-5 rad of pi are ambiguous and not compared"),
 "C03": ("stateful generated torque sessions against a simulated robot, reference limiter as oracle", SIM + "statistical"),
 "C04": ("generated inputs for the public filters and generated control sessions, closed formula as oracle", "public filter functions are called directly on hundreds of thousands of generated inputs; their wiring is observed on the wire of a simulated robot; statistical"),
 "C05": ("generated invalid values injected into callbacks and states, invariant over every datagram", SIM + "statistical over bit patterns, positions and interfaces"),
 "C06": ("generated state datagrams with per-field distinct bits, exact comparison with what was sent", SIM + "statistical; datagrams are delivered by the loopback interface"),
 "C07": ("generated datagram histories (loss, duplication, reordering, backlog), model of the permitted deliveries", SIM + "statistical; what is waiting when a call starts is forced by synchronising with the client; silence is a second of wall clock"),
 "C08": ("stateful generated control sessions, history invariant over callbacks and datagrams", SIM + "statistical"),
 "C09": ("stateful generated sequences of motions, protocol state machine as oracle", SIM + "statistical"),
 "C10": ("generated abort points, statuses and orders of events in motion sequences, protocol state machine as oracle", SIM + "statistical; the abort response and the state change are separate messages whose order is generated"),
 "C11": ("generated aborted motions with generated log sizes, reference log as oracle", SIM + "statistical"),
 "C12": ("generated command sequences, reference encoder and outcome table as oracle", SIM + "statistical"),
 "C13": ("generated segmentation, coalescing and delays of the TCP stream, reference decoder as oracle", SIM + "statistical; the kernel may merge segments that were sent separately"),
 "C14": ("fault injection: close, reset, silence, vanishing at generated points of every call", SIM + "enumerates the fault points of the protocol with generated positions inside messages; a hang counts only if it repeats"),
 "C15": ("generated handshakes (versions, statuses, early states), exact oracle", SIM + "statistical, versions sampled from the 16-bit range with a bias to the library's own"),
 "C16": ("generated gripper command sequences and state histories, reference encoder as oracle", "as for the robot, with a simulated gripper; statistical"),
 "C17": ("generated queries against a recording stand-in of the model library", "the model library is a stand-in whose result depends on every bit of every argument; statistical, but every function and frame is reached thousands of times"),
 "C18": ("stateful generated load histories with stored copies, refusals, damaged libraries and a full disk", "the library uses the fixed path /tmp/model.so, which is saved and restored around every case; statistical"),
 "C19": ("generated motions, invariants over the sampled trajectory, metamorphic time partition", "invariants on 300-1200 samples per trajectory and a differential run of Robot::joint_motion; statistical"),
 "C20": ("generated rotations and values, round trips against independent conversions", "statistical with a bias to half turns and the identity"),
 "C21": ("generated sequences of refused motions, invariant over what the robot receives", "what the system grants (real-time kernel, priority, locked memory) is answered by stand-ins linked into the harness; statistical"),
 "C23": ("generated reflex aborts with message gaps and success rates, numbers recomputed from the robot side history", SIM + "statistical"),
 "C24": ("fault injection: generated storms of signals during the sessions of seven other properties, with their oracles", SIM + "signals hit the calling thread at random times some ten to some thousand microseconds apart; statistical"),
 "C25": ("structure-aware fuzzing of the peer's bytes (odd frames, statuses, sizes, flags), with a reference walk over the same bytes as oracle", SIM + "a connection whose framing is lost is closed by the peer afterwards; statistical"),
 "C26": ("model-based generation of interleaved and nested calls on several connections; every connection has its own simulated peer and is judged on its own", SIM + "one thread; connections on several threads are exercised by every other check, which run 8 to 128 sessions at once"),
 "C27": ("generated motions and read loops with the answer time of every state measured at the simulated robot; invariant on the trimmed mean, repeated before it counts", SIM + "a mean of half a millisecond is allowed, sixteen times what the library takes here; delays below that or in fewer than one state of twenty are not seen"),
 "C28": ("generated cycles of commands and motions with all outcomes repeated hundreds of times under a counting allocator; invariant on the memory held", SIM + "a growth of less than 1500 bytes over the second half of the repetitions is not seen"),
 "C22": ("all single flags and generated flag combinations, name table as oracle", "each single flag is covered in every place; combinations are sampled"),
}
checks = []
for k, (t, n) in C.items():
    checks.append(dict(property=k, quick_cmd="./check.sh " + k, thorough_cmd="VERIF_TIER=thorough ./check.sh " + k,
        technique=t, level="fault_enumeration" if k in ("C14", "C24") else "exploration", level_note=n))
m = dict(version=1, setup_cmd="./check.sh --build", checks=checks, not_applicable=[],
    notes="No hooks in /repo: the checks use the public API and the wire only. known-findings.txt lists the repaired defects and the one that is recorded and not repaired. Replay: ./check.sh --replay FILE")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
