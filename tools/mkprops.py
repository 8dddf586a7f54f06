#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("B01", "Binary sessions deliver every message exactly once, in order, unchanged",
  "In a two-party session, the k-th value received is exactly the k-th value the dual endpoint sent: never lost, duplicated, reordered, altered or taken from another session. Sending never waits for the peer to receive, and a protocol followed to the end by both endpoints terminates with both closes succeeding.",
  ["schedules", "inputs", "programs"], "every session type of Send/Recv/Choose/Offer/End, every payload value and every interleaving of the two endpoints, any number of sessions at once",
  "The tests run a few fixed protocols with fixed values under whatever schedule the OS happens to give.",
  ["src/binary/struct_trait/send.rs", "src/binary/struct_trait/recv.rs", "src/binary/struct_trait/end.rs", "src/binary/send.rs", "src/binary/recv.rs", "src/binary/close.rs", "src/binary/fork.rs"],
  [("one-shot bounded(1) channel per step carrying (value, continuation)", "src/binary/send.rs: send; src/binary/struct_trait/send.rs: new"), ("fork of dual endpoints", "src/binary/fork.rs")],
  ["return values of send/recv/close/fork at the API boundary", "thread join results"])
p("B02", "Binary affine failure: a dead peer is reported, delivered values survive",
  "If an endpoint of a two-party session is cancelled, dropped, returned early from or lost to a panic at any point, then every receive of the other endpoint whose matching send did not happen returns an error instead of hanging, every receive whose matching send did happen still yields that value, and close cannot succeed on the surviving side unless the peer reached its own close. A failure-reporting send never reports failure while the peer is still able to receive, and never reports success once the peer is known to be gone.",
  ["crash_points", "schedules", "programs"], "every operation index at which either endpoint stops, every way of stopping (cancel, drop, early return, panic), every interleaving",
  "The cancellation tests stop one endpoint at one chosen place with one schedule.",
  ["src/binary/cancel.rs", "src/binary/send.rs", "src/binary/recv.rs", "src/binary/close.rs", "src/binary/struct_trait/session.rs", "src/binary/fork.rs"],
  [("channel disconnection on drop turns into Err on the dual", "src/binary/recv.rs, src/binary/close.rs"), ("send_canceled reports SendError", "src/binary/send.rs")],
  ["Results of recv/close/send_canceled/fork join"])
p("B03", "Binary choice: both endpoints take the branch the selecting side named",
  "Whichever branch the selecting endpoint picks (left/right, or any variant of a user enum), the offering endpoint runs exactly the handler for that branch, exactly once, with a session that is the dual of the selector's continuation. This stays true through recursion and nested choices of any depth.",
  ["inputs", "programs", "schedules"], "every sequence of selections, every enum arity, left and right, any recursion depth that the 64 MiB stacks given to the endpoints can hold",
  "Tests drive a handful of fixed selections.",
  ["src/binary/choose.rs", "src/binary/offer.rs"],
  [("choose_left/choose_right/choose!", "src/binary/choose.rs"), ("offer_either/offer!", "src/binary/offer.rs")],
  ["branch handlers executed, values exchanged afterwards"])
p("B04", "Selecting over several binary sessions returns a ready one and loses none",
  "Selecting over a set of receiving sessions returns a value actually sent on one of those sessions paired with that same session's continuation with every other session kept usable, and repeating it until the set is empty yields every sent message exactly once. A session whose peer died is reported as an error rather than blocking the selection, and selecting over nothing is an error.",
  ["schedules", "inputs", "fault_sequences"], "any number of sessions, any readiness order, any subset of dead peers, any interleaving of senders",
  "Tests select over a few sessions in one fixed readiness order.",
  ["src/binary/select.rs"], [("crossbeam Select over the sessions' receivers, indexed back into the vector", "src/binary/select.rs: select_mut, select")],
  ["(value, continuation) pairs returned, remaining vector content and order"])
p("M01", "Multiparty messages reach exactly the addressed role, once, in order, intact",
  "For every number of participants, every interface (session-generating macros in basic, recursive, cancellable and recursive-cancellable form) and every ordered pair of roles p,q: the k-th value q receives from p is the k-th value p sent to q, unchanged, and no other role ever receives it. Each role can perform all the sends and receives of its local protocol in the order its stack prescribes, whatever order the other roles run in.",
  ["programs", "schedules", "inputs"], "every protocol over 2..n roles that respects the role stacks, every ordered pair, every payload, every interleaving",
  "Unit tests exercise selected pairs in selected protocols; with n roles there are n(n-1) generated send and receive paths per macro, and schedules are never varied.",
  ["mpst_seq_proc/src/common_functions/expand/send.rs", "mpst_seq_proc/src/common_functions/expand/recv.rs", "mpst_seq_proc/src/common_functions/expand/fork.rs", "mpst_seq_proc/src/common_functions/maths.rs", "mpst_seq_proc/src/common_functions/expand/aux_fork.rs", "mpst_seq_proc/src/baking/*.rs", "src/baking/mod.rs"],
  [("per-pair session slot chosen by index arithmetic over the role matrix", "mpst_seq_proc/src/common_functions/maths.rs, expand/send.rs, expand/recv.rs"), ("pairing of the channel ends at fork", "mpst_seq_proc/src/common_functions/expand/fork.rs")],
  ["generated send/recv methods", "thread join results"])
p("M02", "Multiparty choice: all roles follow the branch chosen by the selecting role",
  "When a role selects a branch (left/right or any variant of an enumeration), every other participant that offers on it takes that same branch, exactly once per selection, in every iteration of every recursion and for every selecting role; after the branch all pairwise channels again connect the right pairs and nothing of the abandoned branch or previous iteration is received. This holds for 3 to n participants and every choice-capable interface.",
  ["programs", "inputs", "schedules"], "every selecting role, every branch sequence, any recursion depth that the 64 MiB stacks given to the participants can hold, any number of roles, every interleaving",
  "Tests choose a few sequences by one or two roles; branch channels are rebuilt per (chooser, receiver, pair) by generated code whose index arithmetic differs at each position.",
  ["mpst_seq_proc/src/common_functions/expand/choose.rs", "mpst_seq_proc/src/common_functions/expand/offer.rs", "mpst_seq_proc/src/choose_mpst_multi_to_all.rs", "mpst_seq_proc/src/macros_multiple/multiple/choose/*.rs", "src/macros_multiple/choose.rs", "src/macros_multiple/offer.rs", "src/baking/mod.rs"],
  [("choice builds fresh dual channel pairs for every pair of roles and ships one enum variant to each receiver", "mpst_seq_proc/src/choose_mpst_multi_to_all.rs and macros_multiple/multiple/choose"), ("offer pattern-matches and resumes with shipped meshed channels", "src/baking/mod.rs, expand/offer.rs")],
  ["branch handler executed by each role, values exchanged afterwards"])
p("M03", "Progress: well-typed sessions never deadlock and sends never wait for receivers",
  "Any set of participants that follow their (dual, stack-ordered) local protocols terminates, under every interleaving and relative speed. Sending a message, selecting a branch and cancelling never wait for the receiver, so a participant may run ahead by as many sends as its protocol allows while its peers have not yet started receiving.",
  ["schedules", "programs"], "every interleaving, every relative speed of roles (including peers that delay all their receives until everything already sendable has been sent), every protocol shape",
  "Tests run with one natural schedule in which receivers are usually waiting already.",
  ["src/binary/struct_trait/send.rs", "src/binary/send.rs", "mpst_seq_proc/src/common_functions/expand/send.rs", "mpst_seq_proc/src/common_functions/expand/choose.rs", "mpst_seq_proc/src/common_functions/expand/close.rs", "mpst_seq_proc/src/common_functions/expand/fork.rs"],
  [("bounded(1) single-use channels", "src/binary/struct_trait/send.rs"), ("close sends all Stop signals before waiting", "expand/close.rs")],
  ["thread states of the process", "completion of every participant"])
p("M04", "Affine cancellation: one participant's failure reaches all, with no hang or loss",
  "If any participant of a multiparty session cancels, returns early, drops its session or panics at any point, every other participant terminates: each receive whose matching send did not complete fails, each receive whose matching send did complete still yields the value, no send fails unless its receiver has already stopped, and no participant's close succeeds unless every participant reached its own close. The failure is observable in each participant's result and in the corresponding joined thread.",
  ["crash_points", "fault_sequences", "schedules", "programs"], "every role, every operation index, every way of stopping, several stopping at once, before/inside/after choices and recursions, every interleaving",
  "Cancellation tests stop one role at one place in a few protocols.",
  ["mpst_seq_proc/src/common_functions/expand/cancel.rs", "mpst_seq_proc/src/common_functions/expand/close.rs", "mpst_seq_proc/src/common_functions/expand/send.rs", "mpst_seq_proc/src/common_functions/expand/recv.rs", "mpst_seq_proc/src/baking/*.rs", "src/binary/cancel.rs", "src/binary/send.rs", "src/binary/recv.rs"],
  [("dropping a meshed channel disconnects every pairwise channel", "src/binary/cancel.rs, expand/cancel.rs"), ("error propagation from each operation", "expand/send.rs, expand/recv.rs")],
  ["Results of each operation", "thread join results", "thread states"])
p("M05", "Closing is a barrier: close succeeds for all participants or for none",
  "A participant's close returns success only after every other participant of that session has called close, and if some participant never calls close then no participant's close returns success and none of them blocks forever. When all participants call close, all closes succeed.",
  ["schedules", "crash_points", "programs"], "any number of roles, any arrival order at close, any subset of roles that never close",
  "Tests only check that close returns Ok at the end of a successful run.",
  ["mpst_seq_proc/src/common_functions/expand/close.rs", "mpst_seq_proc/src/common_functions/expand/close_atmp.rs", "src/binary/close.rs", "src/functionmpst/close.rs", "mpst_seq_proc/src/macros_multiple/multiple/close/*.rs", "mpst_seq_proc/src/interleaved/close_mpst_interleaved.rs"],
  [("send Stop to every peer, then receive Stop from every peer", "expand/close.rs; macros_multiple/multiple/close")],
  ["call/return order and Results of close"])
p("M06", "Concurrent sessions are isolated from each other",
  "Any number of sessions, of the same or different protocols, may run at the same time in one process: no message, branch selection, closing or failure of one session is ever observed in another, and cancelling or crashing one leaves the others to complete normally.",
  ["schedules", "fault_sequences", "configurations"], "any number of simultaneous sessions of any mix of protocols, some of them failing at arbitrary points, every interleaving",
  "Tests run one session at a time per thread and never look across sessions.",
  ["mpst_seq_proc/src/common_functions/expand/fork.rs", "mpst_seq_proc/src/common_functions/expand/choose.rs", "src/functionmpst/fork.rs", "src/binary/fork.rs"],
  [("every session and every choice allocates its own channels", "expand/fork.rs, expand/choose.rs, Session::new")],
  ["payload identities received by each session", "results per session"])
p("M07", "Hand-built multiparty interfaces behave like the generated ones",
  "The lower-level ways of building a multiparty session (the built-in three-role functions, methods and choice/offer/recursion helpers, and the macro families that create meshed channels, roles, names, send, receive, choose, offer, close and fork items for three or more roles) give the same guarantees: correct addressee, exactly-once ordered delivery, all roles on the chosen branch, all-or-nothing close and failure propagation without hanging.",
  ["programs", "schedules", "crash_points", "inputs"], "every pair of roles, choosing role, branch, participant count and position accepted by these macros, every interleaving and stopping point",
  "Each macro is tested in one or two positions of one protocol.",
  ["src/functionmpst/*.rs", "src/functionmpst/recursion/*.rs", "src/meshedchannels/*.rs", "src/role/*.rs", "src/macros_simple/*.rs", "src/macros_multiple/*.rs", "mpst_seq_proc/src/functionmpst/*.rs", "mpst_seq_proc/src/macros_simple/**", "mpst_seq_proc/src/macros_multiple/**"],
  [("index arithmetic in proc macros", "mpst_seq_proc/src/macros_multiple, macros_simple"), ("hand-written permutations for A, B, C", "src/functionmpst, src/meshedchannels")],
  ["return values at the API boundary", "thread join results"])
p("M08", "Signal-based cancellation reaches every participant through the central role",
  "With the checked-cancellation macros, when any participant sends a cancel signal at any point (or dies without one), the central role broadcasts it, every other participant's next checked send or checked close fails instead of proceeding, and all participants terminate; when nobody cancels, checked sends deliver exactly like ordinary sends and checked closes succeed. A participant is never told of a cancellation that did not happen.",
  ["crash_points", "schedules"], "every cancelling role and operation index, any number of roles, every interleaving",
  "Tests cancel at one place for two role counts.",
  ["src/macros_multiple/cancel.rs", "src/macros_multiple/send.rs", "mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs", "mpst_seq_proc/src/macros_multiple/multiple/send_cancel.rs", "mpst_seq_proc/src/macros_multiple/multiple/send/create_send_check_cancel.rs", "mpst_seq_proc/src/macros_multiple/multiple/close/close_mpst_check_cancel.rs"],
  [("polling of the first channel for Signal::Cancel", "create_send_check_cancel.rs, close_mpst_check_cancel.rs"), ("rebroadcast loop", "broadcast_cancel.rs")],
  ["results of checked sends/closes, thread joins"])
p("I01", "Interleaved sessions: one thread drives two protocols without cross-talk",
  "A participant that takes part in two sessions from one thread can interleave their operations in any order its local protocols allow: messages and choices of each session stay within that session, both close, and a failure in either one (or of the shared participant) terminates every participant of the affected sessions without hanging.",
  ["programs", "schedules", "crash_points"], "every interleaving order of the shared role's operations, every pair of session sizes, every stopping point",
  "Tests use one or two fixed interleavings.",
  ["mpst_seq_proc/src/baking/baking_interleaved_with_enum_and_cancel.rs", "mpst_seq_proc/src/baking_atmp/baking_atmp_interleaved_with_enum_and_cancel.rs", "mpst_seq_proc/src/interleaved/*.rs", "src/interleaved/*.rs", "mpst_seq_proc/src/common_functions/expand/fork.rs"],
  [("interleaved fork pairs two role matrices", "expand/fork.rs: interleaved variants"), ("solo fork for hand-built sessions", "src/interleaved/fork.rs")],
  ["values received, branch taken, join results"])
p("T01", "Timed operations run only inside their declared clock window",
  "A timed send or receive with constraint [a;b] (bounds inclusive or exclusive, either bound absent) proceeds when the named clock's elapsed time satisfies the constraint at the moment of the call and otherwise fails without delivering or consuming the message. Elapsed time is compared in whole seconds against the lower bound, so an exclusive lower bound a is met from a+1 s on. A missing upper bound means no latest time, a missing lower bound no earliest, and an operation naming an unknown clock fails.",
  ["inputs", "configurations"], "every combination of bounds, inclusiveness, absence and elapsed clock value, for send and receive, binary and multiparty",
  "Tests take a few constraint combinations at a few instants; the implementation is a case table over sign and inclusiveness of both bounds, duplicated for send and recv.",
  ["src/binary_atmp/send.rs", "src/binary_atmp/recv.rs", "src/binary_atmp/struct_trait/send.rs", "src/binary_atmp/struct_trait/recv.rs"],
  [("case analysis over (START, INCLUDE_START, END, INCLUDE_END)", "src/binary_atmp/send.rs, src/binary_atmp/recv.rs")],
  ["Result/panic of the timed operation, presence of the message at the peer"])
p("T02", "A timed receive waits to the end of its window, no less, and then fails",
  "A timed receive that starts inside its window returns the message if it is sent before the window closes, fails with an error once the window closes with no message (never before), and never blocks indefinitely when an upper bound is declared. If the sender is gone, it fails instead of delivering anything.",
  ["schedules", "inputs", "fault_sequences"], "every window length, remaining time, arrival instant and sender death",
  "Tests check single arrival instants and sleep-based cases.",
  ["src/binary_atmp/recv.rs"], [("recv_timeout with the remaining window", "src/binary_atmp/recv.rs")],
  ["return instant relative to the clock, value or error returned"])
p("T03", "Clock resets happen exactly when declared, on the declared clock",
  "After a successful timed operation declared to reset a clock, that clock reads zero and no other clock changes; an operation that declares no reset, or that fails, leaves every clock untouched.",
  ["inputs", "programs", "fault_sequences"], "every clock name, every reset declaration, success and failure outcomes, any sequence of operations",
  "Tests reset a single clock in the success case only and hardly ever inspect the clocks.",
  ["src/binary_atmp/send.rs", "src/binary_atmp/recv.rs"], [("reset insertion after success", "src/binary_atmp/send.rs, src/binary_atmp/recv.rs")],
  ["contents of the caller's clock map before and after each operation"])
p("T04", "Timed multiparty sessions keep the untimed guarantees and contain timeouts",
  "A timed multiparty session whose participants act within their constraints delivers every message to the addressed role exactly once and in order, keeps all roles on the chosen branch and closes everywhere. If any participant violates a constraint, times out or stops at any point, that operation fails, and every participant terminates with a failure instead of hanging.",
  ["programs", "schedules", "crash_points", "inputs"], "every protocol over 2..n roles with any clock constraints, every violated constraint and every stopping point",
  "Tests run a few protocols in which timing is always met, or broken at one place.",
  ["mpst_seq_proc/src/baking_atmp/*.rs", "mpst_seq_proc/src/common_functions/expand/*.rs", "mpst_seq_proc/src/choose_atmp_mpst_multi_to_all.rs", "src/baking_atmp/*.rs", "src/binary_atmp/*.rs"],
  [("generated timed send/recv/choose/offer", "mpst_seq_proc/src/baking_atmp, expand/meshedchannels.rs"), ("binary timed primitives", "src/binary_atmp")],
  ["values and branches at each role, join results"])
p("X01", "TCP and UDP sessions carry values and bytes intact and in protocol order",
  "A session over TCP or UDP delivers, for every send, the typed value through the session and the given bytes through the socket to the peer, in order and unchanged, reports the received byte count and data truthfully, and leaves the session usable for the next step. Choice over the transport reaches the selected branch, close and cancel release both the session and the connection whatever state the connection is in, and a send or receive with a peer that is gone fails (error or panic) instead of succeeding.",
  ["inputs", "schedules", "fault_sequences"], "every byte content, every sequence of operations, both transports, every stopping point of either side",
  "No test in the stable suite sends anything over a socket.",
  ["src/transport/tcp/*.rs", "src/transport/udp/*.rs"],
  [("pairing of the in-process session with the socket", "src/transport/tcp/send.rs, recv.rs; src/transport/udp/send.rs, recv.rs"), ("fork with connected sockets", "src/transport/tcp/fork.rs, src/transport/udp/fork.rs")],
  ["values, byte buffers and counts returned; socket state seen by a raw peer"])
p("C01", "Bottom-up checking extracts exactly the communication graph of each role",
  "For every set of endpoint types handed to the checker, the graph produced for each role contains one edge per send, receive, choice and offer the type performs, labelled with direction, the correct two roles and the payload, in the order of the role's stack, with one path per branch, back edges for recursion and a terminal state at the end; the set of label sequences accepted equals that of the type. The automata written for the KMC tool describe the same behaviour, and the bound reported is the smallest one the tool accepts.",
  ["programs", "inputs"], "every set of dual endpoint types (any number of roles, choices, branches, recursion) accepted by the checker",
  "Tests compare graphs of a few protocols to literal strings.",
  ["src/checking/mod.rs", "src/checking/aux_checker.rs", "mpst_seq_proc/src/checking/*.rs"],
  [("parsing of type names into session fields and stack", "src/checking/aux_checker.rs"), ("branch collection from enum/impl source", "mpst_seq_proc/src/checking")],
  ["graphs returned by checker_concat!"])
p("N01", "Generated code from a timed global protocol implements that protocol",
  "For every accepted timed global protocol, the generated program's session types give each role exactly the messages, order, direction, peers, payloads, choices, time constraints and clock resets that the protocol prescribes to it, with each pair of roles dual; each generated role function creates every clock its role uses or resets; and the generated code compiles against the library and can be completed into a program that runs the protocol.",
  ["programs", "inputs"], "every protocol in the supported subset: any roles, messages with at most one payload, single-character clocks, windows, resets, and at most one choice, in tail position, possibly inside loops that its branches continue; names that stay distinct in title case and do not clash with the library's; one statement per line",
  "Tests compile a few fixed protocol files and do not compare the output with the protocol.",
  ["src/top_down_nuscr/generator.rs", "src/top_down_nuscr/generate_regular_protocol.rs", "src/top_down_nuscr/auxiliary_objects/**"],
  [("line-by-line translation", "auxiliary_objects/process_line.rs, line_is_message.rs, messages_and_stacks_update"), ("code emission", "auxiliary_objects/code_generate")],
  ["generated source file, compiled with the library"])
p("N02", "Top-down generation accepts valid protocols and rejects ill-formed ones",
  "The generator accepts a protocol only if its time windows are well-formed numerically (lower bound not above upper bound, non-empty, and feasible for both participants: not ending before the same clock's previous window ends, unless that clock was reset in between; branches and the re-entry of a loop continue from what precedes them), its roles (participants and choosers) are declared and distinct in each message, its loops are known and contain a choice, it is timed and closed, no choice is nested, nothing follows a choice, a continue or the end of the protocol, every line is one of the known statements (or a comment, or blank), clocks are single characters, there are at least two roles, all different, and the names of messages, payloads and roles form types that differ from one another and from those the generated program uses itself; it rejects every other such protocol (and an input that is not readable text) with an error (not a panic) and without leaving a program behind, and accepts every protocol that meets these rules. With the nuscr check enabled, it hands nuscr the same protocol without its timing annotations, accepts only what nuscr accepts, and leaves no temporary file behind.",
  ["inputs"], "every text: protocols with bounds of any magnitude and digit counts, open and closed brackets, resets, unknown or reserved names, comments, misplaced or unreadable lines",
  "Tests give a dozen files with single-digit bounds.",
  ["src/top_down_nuscr/generator.rs", "src/top_down_nuscr/auxiliary_objects/line_is_message.rs", "src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs", "src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs", "src/top_down_nuscr/auxiliary_objects/process_line.rs"],
  [("window comparison against previous use of the clock", "previous_message_wrt_clocks.rs"), ("regex validation of lines", "regex_nuscr.rs")],
  ["Result of the generator, existence of output"])
p("D01", "Session, role and name objects are faithfully dual and self-describing",
  "Creating a pair of dual sessions, names or terminal roles yields two mutually connected objects, and any pair of duals, multiparty channels included, has objects whose printed structure (head, tail and full form) states each object's own structure exactly, and taking the dual twice gives back the same structure. Dropping or consuming one object of a pair is observable from the other exactly as its type prescribes.",
  ["programs", "inputs"], "every role/session/name constructor, built-in or macro-generated, at any nesting",
  "Tests print a handful of nestings.",
  ["src/binary/struct_trait/*.rs", "src/binary_atmp/struct_trait/*.rs", "src/role/*.rs", "src/name/*.rs", "mpst_seq_proc/src/common_functions/expand/role.rs", "mpst_seq_proc/src/common_functions/expand/name.rs", "src/macros_simple/role.rs", "src/macros_simple/name.rs", "src/meshedchannels/mod.rs"],
  [("new() creating duals; head_str/tail_str/self_head_str/self_tail_str", "src/binary/struct_trait, src/role")],
  ["strings returned, channel connectivity"])
p("R01", "No payload is leaked or freed twice, and no run has undefined behaviour",
  "Whatever happens to a session (completed, cancelled, dropped, panicked or abandoned at any step), every payload moved into it is dropped exactly once, every thread it created ends, and the process holds no resources growing with the number of finished sessions. No execution of the library triggers a data race, memory error or undefined behaviour.",
  ["schedules", "crash_points", "histories"], "every session history including every stopping point, any number of sessions",
  "Tests never count drops, threads or memory and are not run under a race detector or undefined-behaviour interpreter.",
  ["src/binary/*.rs", "src/binary_atmp/*.rs", "mpst_seq_proc/src/common_functions/expand/*.rs", "src/interleaved/*.rs", "src/functionmpst/*.rs"],
  [("ownership transfer through channels; fork/join", "src/binary/send.rs, src/binary/fork.rs")],
  ["drop counters of tracked payloads, thread count, allocator balance, Miri and ThreadSanitizer reports"])
p("A01", "Attempt blocks stop at the first failing statement, then run the handler once",
  "An attempt block runs its body once; if every statement succeeds the handler is not run; if a statement fails, the remaining statements are skipped and the handler runs exactly once, after it, with that statement's error. Sessions captured by an interrupted body are released so that peers observe the failure.",
  ["inputs", "crash_points", "programs"], "every failing statement position, nested blocks, handler success or failure",
  "Tests cover a few fixed success/failure combinations.",
  ["src/attempt.rs"], [("closure-wrapped body with error fallback", "src/attempt.rs")],
  ["order of side effects, returned Result, peer's outcome"])
p("S01", "A program that deviates from its session types never comes into being",
  "On every interface, a participant that deviates from its endpoint type (other direction, payload, order or addressee, a missing or extra operation, closing early, continuing in another branch than the one selected), endpoints whose pairwise types (time constraints included) are not dual, a stack that disagrees with the sessions, an endpoint connected in another's place, a session value used twice or copied, and a payload that must not leave its thread cannot be built into a running program; the same program without the deviation can.",
  ["programs", "inputs"], "every interface, kind of deviation, message position and role",
  "The tests contain a handful of compile-fail examples, none per interface and position.",
  ["src/binary/struct_trait/*.rs", "src/binary_atmp/struct_trait/*.rs", "src/binary/send.rs", "src/binary/recv.rs", "src/functionmpst/*.rs", "src/meshedchannels/*.rs", "mpst_seq_proc/src/common_functions/expand/*.rs", "mpst_seq_proc/src/functionmpst/*.rs", "mpst_seq_proc/src/macros_simple/**", "mpst_seq_proc/src/macros_multiple/**"],
  [("session, stack and name parameters of every operation", "src/functionmpst, src/meshedchannels, expand/send.rs, expand/recv.rs"), ("duality through Session::Dual at fork", "expand/fork.rs, src/functionmpst/fork.rs"), ("move semantics: no operation leaves the old session usable", "src/binary/struct_trait")],
  ["existence of the program; results of running it"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
