#!/usr/bin/env python3
"""Single source for properties.jsonl (run by hand after editing)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=hook)))

p("C01","Two-party sessions deliver every payload exactly once, in order, and finish",
 "When both ends of a two-party session follow their dual session types, every receive returns exactly the payload the peer sent at the corresponding step, both ends complete without blocking forever, and closing succeeds on both sides. This holds for every session type and every relative speed of the two threads.",
 ["schedules","programs"],"all interleavings of the two endpoint threads x all session shapes (send/receive sequences, continuation passing through channels) up to a length bound",
 "Tests run three or four fixed session types under whatever schedule the OS picks; the guarantee is over all types and all interleavings.",
 ["src/binary/send.rs","src/binary/recv.rs","src/binary/close.rs","src/binary/fork.rs","src/binary/struct_trait/send.rs","src/binary/struct_trait/recv.rs","src/binary/struct_trait/end.rs"],
 [("fresh one-shot channel per step, continuation sent along with the payload","src/binary/send.rs:send, src/binary/recv.rs:recv"),("dual endpoint creation","src/binary/struct_trait/*.rs:Session::new"),("end handshake","src/binary/close.rs")],
 [("channel","single-use bounded channel carrying (payload, continuation)","src/binary/struct_trait/{send,recv}.rs")],["values returned by recv","result of close","join of the forked thread"])

p("C02","A two-party peer that stops anywhere never leaves the other side blocked",
 "If one end of a two-party session is cancelled, dropped, returns an error or panics at any step, the other end never blocks forever: its next receive or close reports an error, a send to a gone peer is silently absorbed by the ordinary send, and the cancellation-aware send fails loudly. Nothing that was already sent before the stop is lost or altered.",
 ["crash_points","schedules"],"every step of the session as stop point x every way of stopping x all interleavings with the surviving peer",
 "Tests exercise one or two stop points with one schedule; the guarantee quantifies over every stop point and race with the surviving peer.",
 ["src/binary/cancel.rs","src/binary/send.rs","src/binary/recv.rs","src/binary/close.rs","src/binary/choose.rs","src/binary/offer.rs","src/attempt.rs"],
 [("disconnect on drop","src/binary/cancel.rs, struct_trait/*"),("send ignores a gone receiver; cancellation-aware send panics","src/binary/send.rs"),("errors propagated from recv/close","src/binary/recv.rs, src/binary/close.rs")],None,["Result of recv/close","termination of the surviving thread"])

p("C03","Two-party branching: the offering side always takes exactly the selected branch",
 "When one side of a two-party session selects a branch (left/right or a labelled branch, including labels that loop back), the offering side runs exactly that branch's continuation with a session connected to the selector's own continuation, for every sequence of selections. No other branch's code runs and the loop can be taken any number of times.",
 ["schedules","histories"],"all selection sequences up to a depth x all interleavings, for left/right and labelled branching",
 "Tests drive a handful of branch histories.",
 ["src/binary/choose.rs","src/binary/offer.rs"],
 [("a fresh dual pair per selection, sent inside the label","src/binary/choose.rs"),("dispatch on the received label","src/binary/offer.rs")],None,["branch executed by the offering side","payloads exchanged inside the branch"])

p("C04","Selecting over several receives yields a ready one and keeps the rest intact",
 "Waiting on a non-empty collection of pending receives returns the payload and continuation of one that actually has a message (or the error of one whose peer is gone), removes exactly that one, and leaves all others in the collection usable; it blocks only while none is ready, and an empty collection is an error.",
 ["schedules","fault_sequences"],"all interleavings of up to three senders, each sending or disappearing, x every ready-set answer of the selector x every collection size up to three",
 "One small test; which receiver is ready when is schedule- and selector-dependent.",
 ["src/binary/select.rs"],[("readiness wait, then non-blocking receive, then removal by the same index","src/binary/select.rs:select_mut")],None,["returned payload, remaining receivers"])

p("C05","Three-role sessions route each message to the named role and run to completion",
 "In the built-in three-role session library, a message one role sends to another is received by that role, from that sender, in order and exactly once, and a protocol whose three endpoint types are compatible runs to completion (all three roles closing successfully) under every schedule.",
 ["schedules","programs"],"all interleavings x all interaction sequences over the six role pairs up to a length bound, through every call style offered",
 "Tests run a few fixed three-role protocols once each.",
 ["src/functionmpst/send.rs","src/functionmpst/recv.rs","src/functionmpst/fork.rs","src/functionmpst/close.rs","src/meshedchannels/impl_a.rs","src/meshedchannels/impl_b.rs","src/meshedchannels/impl_c.rs","src/macros_simple/send.rs","src/macros_simple/recv.rs","mpst_seq_proc/src/functionmpst/send_aux_simple.rs","mpst_seq_proc/src/functionmpst/recv_aux_simple.rs"],
 [("pairwise channels created and handed out at fork","src/functionmpst/fork.rs"),("which of the two binary sessions each send/receive uses","src/functionmpst/{send,recv}.rs, src/meshedchannels/impl_*.rs")],None,["payload and origin of each receive","results of the three joins"])

p("C06","Generated n-role sessions route each message to the named role and complete",
 "For every number of roles, the generated session library connects each ordered pair of roles by its own channel: what a role sends to another is received by exactly that role as coming from exactly that sender, in order and once, and compatible endpoints all finish successfully under every schedule. This holds for every generation mode and for the macros that build the same pieces one by one.",
 ["schedules","configurations","programs"],"role counts 2..6 x every ordered pair of roles x generation modes x all interleavings of the endpoint threads",
 "Tests instantiate a few role counts with distinct payload types and one schedule; the index arithmetic behind the wiring differs for each role count and pair.",
 ["mpst_seq_proc/src/baking/baking_simple.rs","mpst_seq_proc/src/common_functions/expand/fork.rs","mpst_seq_proc/src/common_functions/expand/aux_fork.rs","mpst_seq_proc/src/common_functions/expand/send.rs","mpst_seq_proc/src/common_functions/expand/recv.rs","mpst_seq_proc/src/common_functions/maths.rs","mpst_seq_proc/src/macros_multiple"],
 [("index arithmetic that maps a role pair to a channel","mpst_seq_proc/src/common_functions/maths.rs"),("fork wiring","mpst_seq_proc/src/common_functions/expand/{fork,aux_fork}.rs")],None,["payload and origin of each receive","results of the joins"])

p("C07","Multiparty choice: every other role enters the branch the chooser selected",
 "When a role selects a branch of a multiparty choice, every other role enters that same branch, and inside it every pair of roles is again connected by matching fresh sessions, so the branch runs to completion. This holds for every choosing role, role count, branch, nesting or looping history, and call style.",
 ["schedules","histories","configurations"],"all branch histories up to a depth x every choosing role x role counts 3..5 x all interleavings",
 "Tests follow one branch history per protocol, mostly with three roles and one chooser position.",
 ["mpst_seq_proc/src/common_functions/expand/choose.rs","mpst_seq_proc/src/macros_multiple/choose_mpst_multi_to_all.rs","src/functionmpst/choose.rs","src/functionmpst/offer.rs","src/functionmpst/recursion/choose.rs","src/functionmpst/recursion/offer.rs","src/meshedchannels","src/macros_simple/choose.rs","src/macros_multiple/choose.rs","src/macros_multiple/offer.rs"],
 [("fresh pairwise sessions created by the chooser and shipped with the label","choose.rs generators and 3-role functions")],None,["branch entered by each role","messages exchanged after the choice"])

p("C08","Closing succeeds only when every peer has finished too, and never hangs",
 "A role's close operation returns success exactly when every other participant of the session has also reached the end and signalled it; if a participant disappears before its end, the peers still waiting get an error instead of blocking forever. This holds for two-party, three-role, n-role and timed sessions, in every schedule.",
 ["schedules","crash_points"],"all interleavings of the closing participants x every subset of participants that disappear instead of closing",
 "Tests close all participants in one schedule; the partial-failure subsets and orders are not enumerated.",
 ["src/binary/close.rs","src/functionmpst/close.rs","mpst_seq_proc/src/common_functions/expand/close.rs","mpst_seq_proc/src/common_functions/expand/close_atmp.rs","mpst_seq_proc/src/interleaved/close_mpst_interleaved.rs"],
 [("exchange of stop signals on every binary end","close.rs files")],None,["result of close for each participant"])

p("C09","A multiparty role that fails at any step makes all others terminate, none hangs",
 "In a multiparty session, if one role stops early at any step (cancels, drops its endpoint, returns an error or panics), every other role terminates in finite time: no role waits forever, roles whose remaining protocol needs the failed role report failure, and no role is reported successful unless all peers it had to synchronise with at the end did so. Messages sent before the failure are still delivered unaltered.",
 ["crash_points","schedules","programs"],"every step of every role as failure point x failure modes x all interleavings x several protocols incl. choice and recursion",
 "Cancellation tests fix one failing role and step per protocol and one schedule.",
 ["src/binary/cancel.rs","mpst_seq_proc/src/common_functions/expand/cancel.rs","mpst_seq_proc/src/common_functions/expand/send.rs","mpst_seq_proc/src/common_functions/expand/recv.rs","mpst_seq_proc/src/baking","src/functionmpst"],
 [("drop of an endpoint disconnects all its binary sessions","struct drop"),("errors of send/recv returned or raised, never swallowed","mpst_seq_proc/src/common_functions/expand/{send,recv}.rs")],None,["join result of each role's thread"])

p("C10","A broadcast cancellation reaches every participant and none keeps waiting",
 "In sessions supervised by a cancellation broadcaster, when any participant cancels, all other participants and the broadcaster stop with an error and none blocks forever; if nobody cancels, the supervised session completes normally and the broadcaster finishes once everyone closed.",
 ["schedules","crash_points"],"every participant and step as cancelling point x branch histories x all interleavings with the supervising role's polling",
 "Tests have a few scenarios with one schedule each; the supervisor polls concurrently with all participants.",
 ["mpst_seq_proc/src/macros_multiple/broadcast_cancel.rs","mpst_seq_proc/src/macros_multiple/send_cancel.rs","mpst_seq_proc/src/macros_multiple/create_send_check_cancel.rs","mpst_seq_proc/src/macros_multiple/close_mpst_check_cancel.rs","mpst_seq_proc/src/macros_multiple/choose_mpst_multi_cancel_to_all.rs"],
 [("polling loop forwarding cancel / stop / new branch ends","broadcast_cancel.rs"),("check before send and on close","create_send_check_cancel.rs, close_mpst_check_cancel.rs")],None,["join result of each participant"])

p("C11","Only programs that follow the protocol are accepted by the compiler",
 "At every endpoint type, the compiler accepts exactly the operation that type prescribes and gives its result the type of the rest of the protocol: sending to or receiving from another role than the next one on the stack, with another payload type, in another order, with another role's function, choosing or offering where the type has no such choice, and closing before every session and the stack are finished are all compile errors. An endpoint is consumed by each operation and can be neither copied nor cloned, letting one go unused is reported by the must_use lint, and a launch is accepted only if the endpoints' sessions are pairwise dual (for timed steps including clock, window and reset). This holds for every flavour: functions, methods, generated, timed, interleaved, supervised, two-party and transport sessions.",
 ["programs"],"all (endpoint type, operation) pairs within a bound: every combination of channel heads, role stack and owner, times every operation of the flavour",
 "A single compile-fail file exists and is not part of the passing suite; the other tests are programs that compile.",
 ["src/functionmpst","src/meshedchannels","mpst_seq_proc/src/common_functions/expand","src/binary","src/binary_atmp"],
 [("the stack type parameter and role-specific impl signatures","functionmpst/*.rs, expand/{send,recv}.rs"),("duality of the channels created by a launch","*/fork.rs")],None,["set of programs the compiler accepts, and the types of their results"])

p("C12","A timed step happens exactly within its declared time window",
 "A timed send or receive succeeds only while the named clock is within the declared window (honouring open and closed bounds); outside it, or when the peer does not act before the window ends, the step fails instead of going through or waiting beyond the window, an inconsistent window or unknown clock is always refused, and a step with no window behaves like an untimed one. Two-party and multiparty timed steps, and timed branch selection, follow the same rule.",
 ["inputs","schedules","configurations"],"all window shapes (bounds, openness, one-sided, empty, none) x clock ages around each bound x peer arrival times x interleavings, in virtual time",
 "Tests sample a few windows in real time and mostly the panicking ones; boundaries and peer timing races are not covered.",
 ["src/binary_atmp/send.rs","src/binary_atmp/recv.rs","src/binary_atmp/choose.rs","src/binary_atmp/offer.rs","src/binary_atmp/struct_trait","mpst_seq_proc/src/common_functions/expand"],
 [("case analysis over bounds and clock age","src/binary_atmp/{send,recv}.rs"),("bounded wait until the window's end","send_timeout/recv_timeout calls")],None,["success/failure of the step and the virtual time at which it happens"])

p("C13","A timed step resets exactly the clock it declares, and only on success",
 "After a successful timed step that declares a reset, that clock reads zero from that moment and no other clock changes; a step that declares no reset, fails, or is the non-resetting variant changes no clock. Clocks are private to each participant.",
 ["inputs","histories"],"all sequences of timed steps up to a depth over two clocks x all reset declarations x clock ages",
 "Tests check success of steps, not the resulting clock values.",
 ["src/binary_atmp/send.rs","src/binary_atmp/recv.rs","src/binary_atmp/fork.rs"],
 [("reassignment of the declared clock on success","src/binary_atmp/{send,recv}.rs")],None,["clock table after each step"])

p("C14","Timed multiparty sessions: punctual runs finish, a late role makes all fail",
 "In a generated timed multiparty session, if every role performs its steps inside their windows all roles finish successfully with every message routed to the right role and branch; if some role is late at any step, every role still terminates and the late role and everyone who needed it report failure.",
 ["schedules","fault_sequences","configurations"],"every step delayed by each delay of an alphabet (none, to the bound, past it) x role counts x all interleavings in virtual time",
 "Tests run a few protocols in real time with no or one delay.",
 ["mpst_seq_proc/src/baking/baking_atmp_with_enum_and_cancel.rs","mpst_seq_proc/src/common_functions/expand","src/baking_atmp/choose.rs"],
 [("generated timed send/recv/choose/close/fork","mpst_seq_proc/src/baking/baking_atmp_with_enum_and_cancel.rs")],None,["join results, payloads, virtual completion times"])

p("C15","Interleaved sessions: one participant in two sessions talks to the right peers",
 "A participant that takes part in two sessions at once receives in each session exactly what that session's peers sent it, and all participants of both sessions complete under every schedule, wherever the shared participant sits in the role order; if one participant fails, all others of both sessions terminate.",
 ["schedules","configurations","crash_points"],"every position of the shared participant x session sizes x failure points x all interleavings",
 "Tests cover two arrangements in one schedule.",
 ["mpst_seq_proc/src/interleaved","src/interleaved","mpst_seq_proc/src/baking/baking_interleaved_with_enum_and_cancel.rs"],
 [("fork with the shared role solo in both meshes","mpst_seq_proc/src/interleaved/fork_mpst_multi_solo.rs")],None,["payloads per session, join results"])

p("C16","Exported automata describe exactly the behaviours of the endpoint types",
 "The graph and the communicating automaton produced for each role from its endpoint types accept exactly the sequences of sends and receives (peer, direction, payload) that the endpoint type allows, including every branch and every loop back, for every role order in which the types are given.",
 ["programs","inputs"],"all protocols up to a size bound (2-4 roles, messages, choices, recursion), all role argument orders; every reachable state of the product of reference and produced automata",
 "Tests compare a few protocols' printed graphs.",
 ["src/checking/mod.rs","src/checking/aux_checker.rs","mpst_seq_proc/src/checking"],
 [("type-name parsing and traversal","src/checking/aux_checker.rs")],None,["returned graphs, automata file"])

p("C17","The compatibility checker returns the least bound the external tool accepts",
 "When a file name is given, the checker writes the automata file before consulting the external tool, asks it about increasing bounds and returns the smallest bound from 1 to 50 the tool accepts, or none if there is none; a tool that is missing or dies without a verdict is reported as an error.",
 ["fault_sequences","inputs"],"all positions (1..50, none) of the first accepted bound and tool failures at each call",
 "The external tool is absent in the test environment.",
 ["src/checking/mod.rs"],[("search loop over bounds","src/checking/mod.rs:checker")],None,["returned bound, calls received by the tool"])

p("C18","Code generated from a timed protocol description is its exact projection",
 "For a valid timed global protocol description, the generated endpoint types, stacks, branch types and skeletons are, for every role, exactly the projection of the description: same messages, order, peers, payloads, windows, clocks and resets, mutually dual between roles, with every branch and loop linked to the right continuation.",
 ["inputs","programs"],"all protocol descriptions up to a size bound over an alphabet of messages, windows, resets, choice and recursion; every reachable state of the composed endpoints",
 "Three sample descriptions are generated; only success of the generation is tested.",
 ["src/top_down_nuscr/generator.rs","src/top_down_nuscr/auxiliary_objects"],
 [("line-by-line projection","process_line.rs, line_is_message.rs, messages_and_stacks_update/*"),("code emission","code_generate/*")],None,["generated file"])

p("C19","Ill-formed timed descriptions are rejected, well-formed ones accepted",
 "Generation fails with an error, and only fails, for descriptions that are malformed (unknown or identical sender and receiver, an unknown chooser, a window whose lower bound exceeds its upper bound, consecutive windows of a participant on one clock of which the second may already be over when the first is met with no reset in between, a loop back to an undeclared loop, unbalanced braces, a missing protocol header, a line that cannot be read) or use what is not supported (nested choices, interactions after a choice, loops without a choice); nothing of a description is silently lost.",
 ["inputs"],"all window pairs over a bound alphabet with multi-digit values x openness x resets, all single structural faults of small descriptions, and every edit of one character or one line of them",
 "Two failing samples exist.",
 ["src/top_down_nuscr/auxiliary_objects/line_is_message.rs","src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs","src/top_down_nuscr/auxiliary_objects/process_line.rs","src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs"],
 [("bound comparison and feasibility check","line_is_message.rs, previous_message_wrt_clocks.rs")],None,["Ok/Err of generation"])

p("C20","External validation sees the untimed protocol and gates the generation",
 "When external validation is requested, the validator receives exactly the description with all timing erased (same roles, messages, payloads, choices and loops, in order) under its name, generation goes on only if the validator accepts (it succeeds and prints its answer), and the temporary file is removed in every case.",
 ["inputs","fault_sequences"],"all line shapes of the description language (with and without payload, reset, openness) x validator answers (accept, reject, missing)",
 "The external validator is absent in the test environment; no test covers this path.",
 ["src/top_down_nuscr/generate_regular_protocol.rs","src/top_down_nuscr/generator.rs"],
 [("line rewriting and command invocation","generate_regular_protocol.rs")],None,["file seen by the validator, result, leftover files"])

p("C21","TCP and UDP steps transfer the exact data block or report an error",
 "A TCP step delivers to the receiver the complete data block the peer sent, however the network splits it, in order, and a connection cut before the block is complete is reported as an error and never as data; a UDP step delivers the received datagram and its exact length; with the network switch off nothing is read or written and the in-process session still runs; cancelling gives up the session and the connection and always succeeds.",
 ["fault_sequences","schedules"],"every way to split or cut the block's bytes at each I/O call (short reads, short writes, end of stream, error) up to a bound x switch settings",
 "Transport tests are not part of the passing suite and cannot control fragmentation.",
 ["src/transport/tcp","src/transport/udp"],[("exact read/write of the block","src/transport/tcp/{send,recv}.rs"),("datagram send/receive","src/transport/udp/{send,recv}.rs")],None,["returned data, error, bytes on the wire"])

p("C22","Launching participants reports each one's outcome faithfully",
 "Launching a session starts every participant exactly once with its own endpoint, and joining a participant reports success exactly when its code returned success: an error or a panic of one participant is always reported by its own join and never by another's or lost. Grouped attempts run their steps in order, stop at the first failure and run the handler exactly then.",
 ["schedules","fault_sequences"],"every subset of participants that return an error or panic x all interleavings x role counts; every failing position in an attempt block",
 "Tests mostly join successful participants.",
 ["src/binary/fork.rs","src/functionmpst/fork.rs","mpst_seq_proc/src/common_functions/expand/fork.rs","src/attempt.rs","src/binary_atmp/fork.rs"],
 [("error turned into a panic of that thread","fork implementations"),("sequenced fallible steps","src/attempt.rs")],None,["join results"])

p("C23","Printed session descriptions match the session types",
 "The textual description of any session, stack or name type, obtained from the type or from a value, is the one its type dictates, nested in the right order and the same from both; the description of an endpoint covers all of its sessions and its stack, and that of a timed window its clock, bounds and their inclusion.",
 ["programs"],"all session and stack types up to a depth, built-in and generated roles",
 "Tests check a few types.",
 ["src/binary/struct_trait","src/binary_atmp/struct_trait","src/role","src/name","mpst_seq_proc/src/common_functions/expand/role.rs","mpst_seq_proc/src/common_functions/expand/meshedchannels.rs","src/macros_simple/role.rs"],
 [("recursive head/tail description","struct_trait/*.rs, role/*.rs")],None,["returned strings"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
