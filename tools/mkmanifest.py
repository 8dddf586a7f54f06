#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/INDEX, properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "default": ("trace-specification monitoring of real executions under schedule perturbation", "exploration",
             "Held on the executions observed (random protocols, payloads, schedules); generated workloads and the oracle are trusted."),
 "M01": ("event-log monitor + offline FIFO/exactly-once oracle on generated programs", "exploration", "Held on tens of thousands of executions of randomly generated and pair-covering protocols over 2-7 roles; schedules are perturbed, not enumerated."),
 "M02": ("event-log monitor + branch-agreement oracle on generated programs", "exploration", "Every role selects, every branch style and mode; schedules and branch scripts sampled."),
 "M03": ("online deadlock/livelock detector (thread states) + receiver-late gating", "exploration", "Liveness restated as: no execution reaches a state with all threads blocked untimed, and every execution ends; sampled schedules."),
 "M04": ("fault injection at operation boundaries + event-log oracle", "fault_enumeration", "Fault positions sampled over (participant, operation, way, schedule); oracle judges every survivor operation."),
 "M05": ("fault injection + ordering oracle over close call/return events", "fault_enumeration", "Close call/return orders observed under perturbed schedules and stops; not enumerated exhaustively."),
 "M06": ("concurrent-session stress + globally unique payload identities", "fault_enumeration", "Up to 12 sessions per process at once with failures; sampled."),
 "M07": ("fault injection + event-log oracle on hand-built interfaces", "fault_enumeration", "All built-in, macros_simple and macros_multiple interfaces, 3-6 roles; protocols, faults and schedules sampled."),
 "M08": ("fault injection + event-log oracle + deadlock detector on checked cancellation", "fault_enumeration", "Cancel signals and silent deaths in front of sampled operations of 2-6 participants plus the central role."),
 "B01": ("event-log monitor + offline FIFO/exactly-once oracle on generated binary programs", "exploration", "Random binary protocols, payload types and schedules; sampled."),
 "B02": ("fault injection + event-log oracle on generated binary programs", "fault_enumeration", "Failure positions sampled over (side, operation, kind, schedule)."),
 "B03": ("online deadlock detector + event-log oracle on generated binary programs", "exploration", "Sampled schedules."),
 "B04": ("online checker of select results against a reference model", "fault_enumeration", "Sampled session sets, fault sets and timings."),
 "T01": ("online checker of timed operations against a reference window semantics", "exploration", "All combinations of bound, inclusion and reset kinds at the two-party level, clocks randomly positioned incl. just below/above boundaries; operations whose window boundary falls inside the call are not judged."),
 "T02": ("call/return time-stamp monitor of blocking timed receives", "exploration", "Blocking receives against early, late, silent, dying peers; the 'no later than' side is judged with a 500 ms margin and only on four overshoots in a row."),
 "T03": ("online checker of clock state before/after every timed operation", "exploration", "Same workload as T01; also failing operations and operations with missing clocks."),
 "T04": ("event-log monitor + oracle on generated timed programs with out-of-window, stall and stop injection, online clock monitor", "fault_enumeration", "Random and covering timed protocols over 2-6 roles, enumerated and left/right selections; constraints met by construction or violated at one sampled operation; windows of a few ms with stalling participants."),
 "X01": ("raw-peer byte recorder + session script oracle over loopback sockets, with peer and local faults", "fault_enumeration", "Random scripts, socket use, peer modes (echo, inject, fragment, die) and stopping points over real loopback TCP/UDP; sampled. HTTP transport not covered."),
 "C01": ("extracted graphs and automata compared, as languages, with the automaton of each role of generated protocols", "exploration", "Random protocols over 2-5 roles (linear, left/right, enumerated, mixed, recursive), hostile payload types and role names; the KMC tool is replaced by a stand-in that records how it is called."),
 "N01": ("generated programs resolved, compiled, run and compared with the projections of the protocol", "exploration", "Random protocols over 2-5 roles in the supported subset; one known compile-time limit on loops (known finding N01-loop)."),
 "N02": ("online checker of the generator's verdict against a reference model of the rules", "exploration", "Thousands of protocol texts just inside and just outside each rule; combinations the rules leave open (windows equal in whole seconds only) are not generated; nuscr is replaced by a stand-in."),
 "D01": ("printed structure compared with the generated term; online walk of both objects of each pair", "exploration", "Random nestings up to depth 30, every constructor, every creating macro; roles other than the terminal ones carry no connected channel in this library, so only their structure is judged."),
 "A01": ("trail of events of generated attempt blocks compared with the blocks read as data", "fault_enumeration", "Every single failing position of a few hundred random blocks (thorough), nested up to depth 3, random combinations; panics inside a block are not injected."),
 "R01": ("heap/thread/file balance monitor, payload drop accounting, ThreadSanitizer, AddressSanitizer, Miri", "fault_enumeration", "Executions sampled over all interfaces and random stopping points; Miri runs small sessions with a few schedules; AddressSanitizer in the thorough tier only."),
 "S01": ("deviation injection into generated programs; any that comes into being is run under the history monitor", "fault_enumeration", "One deviation at a time in small two- to four-role programs over every interface; refusals are observed from the real tool chain with the real library, and only refusals for types, ownership or missing operations count. Programs that do not come into being have no execution: their non-existence is the observation."),
 "I01": ("event-log monitor + oracle over two sessions sharing one thread, with fault injection; online checker for single-thread sessions", "fault_enumeration", "Random interleavings of random protocol pairs (2-5 roles each), timed and untimed, all positions of the shared participant over the small sizes; solo forks of 3-6 roles; sampled."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
idx = dict(l.split() for l in open(os.path.join(V, "checks", "INDEX")) if l.strip())
NA = {}
p = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(p):
    NA = json.load(open(p))
hooks = dict(guard="none", enable="no hooks are needed: every monitor sits at the public API boundary", source_commits=[])
checks = []
na = []
for x in props:
    i = x["id"]
    if i in idx:
        t, lvl, note = T.get(i, T["default"])
        checks.append(dict(property=i, quick_cmd=f"./check.py {i} --tier quick", thorough_cmd=f"./check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level=lvl, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", hooks=hooks, checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
