#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, pathlib
S = "pysim/sim/simulator.py"; L = "pysim/sim/logger.py"
PM = "pysim/models/pingpong/model.py"; PH = "pysim/models/pingpong/handlers.py"
PC = "pysim/models/pingpong/cli.py"; PP = "pysim/models/pingpong/processing.py"
TM = "pysim/models/tag_time/model.py"; TMC = "pysim/models/tag_time/mc.py"
TA = "pysim/models/tag_time/analitical_model.py"
TP = "pysim/models/tag_time/calculate_params.py"; TC = "pysim/models/tag_time/cli.py"
O = "pysim/models/rfid/objects.py"; H = "pysim/models/rfid/handlers.py"
E = "pysim/models/rfid/epcstd.py"; C = "pysim/models/rfid/configurator.py"
RC = "pysim/models/rfid/cli.py"; RP = "pysim/models/rfid/processing.py"
M = "pysim/main.py"; CH = "pysim/models/rfid/channel.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Events fire in time order, ties in scheduling order; the clock follows",
 """In every simulation, handlers are called in non-decreasing model time, and events due at the same
 time are called in the order in which they were scheduled, including events scheduled with zero delay by a
 handler of that very instant. While a handler runs, the model clock shows exactly the time its event was
 scheduled for (the clock at the scheduling call plus the delay); it shows zero during initialisation and the
 time of the last event during finalisation.""",
 ["schedules", "programs"], """All programs of handlers: any tree of schedule/call/cancel operations performed
 from the initialiser and from handlers, any non-negative delays, any number of simultaneous events.""",
 """The tests run one echo model with two or three events in flight and never two at the same instant inside the
 kernel; ordering of ties and of events scheduled from handlers is a statement about every schedule.""",
 [S], [("EventQueue.push/pop: heap ordered by (time, id)", S), ("Kernel.build_runner main loop sets the clock before the handler", S),
 ("Kernel.schedule adds the delay to the current time", S)], ["handlers called by the kernel", "Simulator.time"],
 [("_event_list", "heap of pending (and cancelled) events", S), ("_sim_time", "model clock", S)])
prop("C02", "Every scheduled event runs exactly once with its own arguments, unless cancelled",
 """Every accepted event runs at most once, and exactly once in a run that ends because no events remain, with
 the handler and the arguments it was scheduled with. Cancelling a pending event makes it never run and reports
 1; cancelling an unknown, already executed, currently running, already cancelled or absent (None) identifier
 reports 0 and changes nothing, and no cancellation ever affects another event. Identifiers are never reused, and the
 kernel's list of future events holds exactly the pending ones.""",
 ["schedules", "programs", "histories"], """All histories of schedule, call, cancel and event execution, with
 cancellations of any identifier at any moment, from any handler.""",
 """No test cancels an event of a running simulation; the queue tests cancel one of three entries.""",
 [S], [("EventQueue.cancel: lazy deletion by nulling the task", S), ("Kernel.cancel reports 0/1", S), ("EventQueue.pop skips cancelled entries", S)],
 ["handlers called", "Simulator.cancel return value", "Kernel.future_events()"],
 [("_event_dict", "pending events by id", S)])
prop("C03", "A run ends at the right moment and reports it truthfully",
 """A run executes no further event once the clock has passed the model-time limit, the real-time limit is
 exceeded, the limit on the number of events is reached, or the initialiser or a handler asked to stop; otherwise it goes on until
 no events remain. The finaliser is called exactly once, after the last event, and its value is returned together
 with the context. The report states a reason that really holds, and the true number of
 executed events, final model time, elapsed real time, stop message and last handler.""",
 ["programs", "configurations", "schedules"], """All programs combined with every combination of limits (none, one
 or several), stop requests at any moment (initialiser included), and any progress of the real-time clock.""",
 """Tests cover one model with one limit at a time; none uses the event limit, a stop during initialisation,
 two limits, or a run that just runs out of events.""",
 [S], [("Kernel.stop_conditions before each event", S), ("Kernel.build_runner: finalizer and ExecutionStats", S)],
 ["ExecutionStats", "finalizer calls", "run_simulation() result"])
prop("C04", "Invalid scheduling requests are rejected where they are made",
 """Scheduling with a negative delay, with no handler, with a handler that cannot be called or with arguments that
 are not iterable raises the documented error in the call that made the request. A rejected request leaves no
 trace: no event is added, no identifier is consumed, pending events, clock and counters are unchanged and the
 simulation continues as if the request had never been made.""",
 ["programs", "inputs", "fault_sequences"], """Every invalid request (all kinds, alone and combined) at every point
 of every program, from initialiser and handlers, through both scheduling calls.""",
 "No test makes an invalid request.", [S], [("Kernel.schedule argument checks", S)],
 ["exceptions of Simulator.schedule/call", "subsequent behaviour"])
prop("C05", "The event queue behaves as a time-ordered FIFO with cancellation",
 """For every sequence of operations, pop returns the pending entry with the smallest time, among equal times the
 one pushed first, as its time, identifier and task; identifiers count up from zero and survive clearing. Length,
 emptiness and listing always reflect exactly the entries pushed and neither popped, cancelled nor cleared. Popping from a
 queue without pending entries raises KeyError and cancelling an unknown identifier has no effect.""",
 ["histories"], "All finite sequences of push, pop, cancel, clear, length, emptiness and listing.",
 "Six tests use fixed sequences of at most three pushes, never with equal times.",
 [S], [("EventQueue", S)], ["EventQueue methods"], [("_event_list/_event_dict", "heap and index of pending events", S)])
prop("C06", "Simulations do not influence each other",
 """Several simulations built, run one after another, or run from inside a handler of another simulation behave
 exactly as each of them would alone: own clock, events, identifiers from zero, limits, stop request and report.
 A simulation without a given context starts with a fresh empty dictionary; a given
 context, or the one installed during the run, is the one seen by handlers and returned. Building a simulation
 runs nothing: the initialiser runs exactly once, with its arguments, when the simulation is run.""",
 ["programs", "schedules"], "All pairs and nestings of programs, all orders of building and running them.",
 "Each test runs one simulation in isolation.", [S], [("one Kernel, EventQueue and Simulator per build_simulation()", S), ("Simulator.context default", S)],
 ["handlers, Simulator.context, run_simulation() results of each simulation"])
prop("C07", "Log records reach exactly the configured sinks, stamped with time and run id",
 """A record is written to a sink exactly when the sink is configured and the level of the record is at least
 both the logger's level and the sink's own level (the logger's when not given). Each written
 record carries the model time of the moment it was made and the run id, and log files are
 named from the configured name, separator and run id. Setting a logger up again has no effect
 unless forced; a forced setup replaces all sinks of the previous one and starts
 its log file afresh.""",
 ["configurations", "histories"], """All configurations of level, console level, file level, naming, and all
 histories of setup, forced setup and logging at any (also non-standard) level and model time.""",
 "The logger has no tests.", [L], [("ModelLogger.setup/_get_extra/build_file_name", L), ("ColoredFormatter", L)],
 ["stderr of the console sink", "contents and names of log files"])
prop("C08", "Ping-pong is stop-and-wait with the configured delays",
 """At any moment at most one packet is in flight: a ping travels for the channel delay, is lost or served for the
 service delay, its pong carries the ping's number and travels for the channel delay, and the next ping leaves exactly one interval
 after the pong arrived or the ping was lost. Ping numbers grow by one, every delivered pong is counted as
 acknowledged and none as bad, exactly the configured number of pings is sent, and the run then stops one interval after the last
 exchange ended. Loss probability 0 loses nothing and 1 loses every ping; pings are lost independently with the configured probability.""",
 ["schedules", "configurations", "inputs"], """All loss patterns and all interval, channel delay, service delay, loss
 probability and ping count settings.""", "The ping-pong model has no effective tests (the file is empty).",
 [PM, PH], [("Client/Server/Channel handlers", PM)], ["model statistics after each event", "Simulator.time"],
 [("number, num_pings_sent, num_acknowledged", "client state", PM)])
prop("C09", "Ping-pong results are the statistics of the exchange that took place",
 """The reported miss rate is the share of sent pings whose pong had not been received when the client gave up on
 them, in particular 0 without losses and 1 when everything is lost, and sent = acknowledged + missed (+ the one
 still in flight). The reported average interval and delay are the means over the intervals and channel passes that
 took place. Results exist for every loss probability, and in a multi-run
 the results belong to the sorted distinct values of the varied parameter, listed in the same order.""",
 ["schedules", "configurations"], "All loss patterns and configurations, all multi-valued parameter lists.",
 "Nothing tests the reported statistics.", [PM, PH, PC, PP],
 [("finalize()", PH), ("Client counters", PM), ("run_multiple_simulation", PC), ("result_processing", PP)],
 ["Result", "printed parameter and result tables"])
prop("C10", "The tag-time event model walks the state chain of its scenario",
 """Each attempt in a state lasts exactly that state's processing time and then either succeeds, moving to the next
 state (in scenario 3 through every chunk in order), or fails: back to the first state in scenario 1, staying in place in scenarios
 2 and 3. Passing the last state completes one transmission and immediately begins the next;
 the run stops as soon as the requested number of transmissions is complete, so its model time is the sum of the
 processing times of all attempts. Success probability 1 never fails, 0 never succeeds, and
 attempts succeed independently with the configured probability of their state.""",
 ["schedules", "configurations"], """All success/failure patterns, scenarios, chunk counts, processing times,
 probabilities and transmission counts.""", "The event model of tag-time has no tests.",
 [TM, TC], [("State.handle_timeout/success_state_change/faild_state_change/handle_receive", TM)],
 ["visit counters after each event", "Simulator.time", "ExecutionStats.sim_time"],
 [("num_pakage_sent, chunks_passed, num_transmissions", "visit counters", TM)])
prop("C11", "The matrix Monte-Carlo model is the same chain as the event model",
 """For every scenario the transition matrix, row by row, is the cumulative distribution of the scenario's chain:
 success to the next state, failure to the first state (scenario 1) or to itself (2 and 3), absorbing last state.
 The Monte-Carlo estimate is the mean, in milliseconds, over the requested number of walks of the sum of stay times of
 the states visited from the first until absorption, with every visit counted and each next state drawn from the row of the current one.""",
 ["inputs", "configurations", "schedules"], """All probability vectors of any length and scenario; all absorbing
 chains and stay times; all random walks.""", """One unreliable test compares a single scenario's sampled mean with a constant and
 is not among the stable ones.""", [TMC], [("create_matrix_1/2/3, create_input_probs, monte_carlo", TMC)],
 ["matrices", "monte_carlo()/run_multiple_models() results"])
prop("C12", "The analytical model gives the expected absorption time of the chain",
 """For each scenario and all positive probabilities the analytical result is the exact expected
 absorption time of the scenario's chain (in milliseconds for the batch runner), however small the probabilities,
 for any number of chunks including one. Results come in the order of the inputs, one per probability set.""",
 ["inputs", "configurations"], "All probabilities in (0, 1], all stay times, all chunk counts, all batches.",
 "No test covers the analytical model.", [TA], [("calculate_first/second/third_case, run_analitica", TA)],
 ["returned values"])
prop("C13", "Tag-time parameters describe the exchange that was configured",
 """Splitting a message into chunks conserves its words. State times are command plus reply
 durations plus the link timings T1 and T2 of the configured Tari, encoding and divide ratio and a fixed guard time of 20 us; state probabilities are the probabilities that a reply of the
 state's actual length in bits arrives without a bit error, so they never grow with the bit error rate or the reply length.
 There is one probability set and one time set per requested point, each with three states plus one per chunk, in order.""",
 ["inputs", "configurations"], "All message sizes, chunk counts, encodings, Tari, divide ratios, preambles and BER vectors.",
 "No test covers parameter preparation.", [TP, E], [("calculate_chunks, build_messages_df, prepare_probs, prepare_times", TP)],
 ["returned dictionaries and lists"])
prop("C14", "A tag follows the Gen2 inventory state machine",
 """For every sequence of commands a tag's state, slot counter and replies follow the protocol: it joins a
 round only when target and select match, answers exactly in slot zero with a fresh 16-bit number, decrements only
 for its own session, acknowledges only the number it sent, hands out a new handle and memory contents only after being acknowledged, and
 is silent without power or after a wrong number. Slots are drawn uniformly over the round, so every slot below 2^Q
 and none above can occur.""",
 ["histories", "inputs"], """All sequences of power changes and commands with all parameters (session, target, Q, numbers right
 and wrong), and all random draws.""", "No test touches the tag.", [O], [("Tag.receive and process_*", O)],
 ["Tag.receive() replies", "Tag.state, slot_counter, rn"],
 [("_state, _slot_counter, _rn, _active_session", "tag protocol registers", O)])
prop("C15", "Inventoried flags change only when due and persist as configured",
 """A tag inverts its inventoried flag for the active session exactly once after it was acknowledged, at the next
 Query, or QueryRep or QueryAdjust of that session, and leaves the flags of other sessions alone. Losing power keeps the flags of S1 to S3 for at most
 the session's configured persistence time and resets S0 (and expired flags) to A at power-up. With a constant target a tag is
 therefore acknowledged at most once per power-up in S0, and at most once while its flag persists in the other sessions.""",
 ["histories", "configurations"], """All sequences of commands, sessions, power losses of any length, and persistence
 settings, in isolation and in whole-system runs.""", "No test touches sessions or persistence.",
 [O, E, C], [("flag inversion in process_query/_rep/_adjust", O), ("Tag._power_on, Session.power_on_value", E), ("persistence settings to tags", C)],
 ["Tag.sessions, s0..s3"], [("sessions", "inventoried flags", O)])
prop("C16", "The reader runs rounds of slots and sends the right command in each state",
 """A round is one Query slot followed by QueryRep slots, 2^Q in all (while Q does not change), then the next round begins; rounds and
 slots are announced as started and finished in matching order, rounds with consecutive numbers. A decoded reply moves the reader through
 ACK, and, when reading memory, ReqRN and Read, each addressed to the number it has just received, then on to the next
 slot; no reply, collision or decoding failure ends the slot. Commands carry the configured parameters; replies that do not fit the
 state are errors, and when switched off the reader ignores everything.""",
 ["histories", "configurations"], """All sequences of turn-on, turn-off, timeout and reply events, all Q, all
 combinations of reading options.""", "No test touches the reader.", [O],
 [("Reader.State handlers, Reader.next_slot/_ReaderRound/_ReaderSlot", O)],
 ["frames returned by turn_on/turn_off/timeout/receive", "reader state and round/slot/state listeners"],
 [("_state, last_rn, _round", "reader protocol registers", O)])
prop("C17", "The reader alternates its target flag as configured",
 """With the constant strategy every Query carries the configured target. With the switching strategy the target is
 A after each power-up and then alternates A, B, A, ... with exactly the configured number of consecutive rounds for each
 value, counted in rounds regardless of what happens inside them.""",
 ["histories", "configurations"], "All numbers of rounds per target, Q, and histories of slots, replies and power cycles.",
 "No test touches targets.", [O], [("_ReaderQUERY.enter, _ReaderOFF.handle_turn_on", O)], ["Query commands sent", "Reader.target"],
 [("num_rounds_before_target_switch", "rounds left with this target", O)])
prop("C18", "Only a lone reply is received; collisions identify nobody",
 """In a whole-system run every powered tag hears every command once and in no other way, and the reader receives a reply only if
 exactly one tag replied; with two or more replies nobody advances on that command. A lone reply of n bits at bit error rate b is received
 with probability (1-b)^n. An identification is recorded, once, for the
 tag whose EPC was received, with the round it happened in, and a memory read only for a tag identified in that same slot;
 records are never lost nor credited to another tag.""",
 ["schedules", "histories", "configurations"], """All interleavings of tag arrivals, departures, random slots, collisions, decoding
 failures and power cycles.""", "No test runs the RFID model.", [H, O],
 [("finish_transaction/_one_tag_response/_multiple_tag_response", H), ("Transaction.received_tag_frame", O), ("_TagRecord", O)],
 ["reader state and transaction after each event", "Statistics records"])
prop("C19", "Transactions occupy exactly the air time the protocol prescribes",
 """A command without replies holds the reader for the command, the longest T1 and T3; with replies for the command,
 T1, the longest reply and T2, and never less than the command plus T4. Replies start T1 after the end of the command, the next
 command is sent exactly when the transaction ends, no two transactions overlap, and there is always
 exactly one in progress while the reader is on. Query is sent with the full preamble and every other command with a frame-sync,
 so that transaction and timeout durations agree.""",
 ["configurations", "schedules"], "All link parameters (Tari, RTcal, TRcal, DR, encoding, TRext) and whole-system schedules.",
 "No test measures a transaction.", [O, H], [("Transaction.__init__", O), ("_ReaderState.get_timeout", O), ("finish_transaction/turn_reader_on", H)],
 ["Transaction properties, frame preambles, model time of successive commands"])
prop("C20", "Adaptive Q moves by one step, stays within 0..15, and tags follow it",
 """With Q adjustment on, the reader's fractional estimate goes up by the configured step after a collided slot and
 down after an unanswered one (slots opened by Query or QueryRep), never outside 0..15, starting from the configured Q; whenever its rounding
 reaches a neighbouring integer within 0..15 the reader's Q becomes that integer and one QueryAdjust with the same direction is sent. Tags in the round of that session follow by the
 same one step and draw a new slot below 2^Q, counting one adjustment each, others do not, and a tag never leaves 0..15. With adjustment off Q never changes.""",
 ["histories", "configurations"], "All sequences of collided, empty and answered slots, all starting Q and steps, all tag states.",
 "No test covers Q adjustment.", [H, O, C], [("_no_tag_response/_multiple_tag_response", H), ("Tag.process_query_adjust", O), ("_ReaderAdjust", O)],
 ["Reader.q, q_fp, QueryAdjust commands", "Tag.q, slot_counter"])
prop("C21", "Tags live, move and are counted exactly as generated",
 """Each generator creates its tags one generation interval apart, at most the configured number, each with its own
 identifier, EPC and TID of the configured lengths (the latter two differ as far as those lengths have room). A tag moves from the start position along its direction at its speed and is
 removed exactly when it has travelled the configured distance, after which it takes no part in anything; the run stops when the
 configured number of tags has left. At any moment created = present + departed, each departed tag has exactly one record, and
 the reported probabilities and averages are those of the records; a tag's number of rounds counts the Queries after which it takes part.""",
 ["schedules", "configurations"], "All generation intervals, speeds, distances, tag counts and reader schedules.",
 "No test runs the RFID model.", [H, O], [("generate_tag/remove_tag/_update_power", H), ("Generator.create_tag", O), ("Statistics", O)],
 ["Model.tags, positions, Statistics after each event"])
prop("C22", "Power decides who takes part: duty cycle, sensitivity and silence",
 """The reader is on and off for exactly the configured durations in turn (always on when power switching is off); while it is off no command is
 on air, no transaction is pending, the round is closed and every tag is without power. A tag turns on when the received power exceeds its sensitivity
 and off when it drops below it, returning to the ready state afresh at every power-up and forgetting its round. A power-down
 in the middle of anything leaves nothing behind that acts later.""",
 ["schedules", "configurations", "crash_points"], """All on/off durations against all moments of a transaction, slot and round; all
 power sequences around the sensitivity.""", "No test covers power.", [H, O],
 [("turn_reader_on/turn_reader_off", H), ("Tag.set_power", O), ("_ReaderOFF.enter", O)],
 ["Reader.power, Tag.power/state, transaction and round after each event"])
prop("C23", "Command encodings and frame durations are those of the protocol",
 """Every command encodes to the Gen2 bit string of its fields (code, field widths and order, two's-complement-free unsigned fields, extensible
 word pointers), defaults in force included. The duration of a reader frame is preamble or frame-sync plus data-0 and
 data-1 times per bit, that of a tag frame is (preamble, payload and end bit) times symbols per bit over the link frequency; all duration helpers agree
 with the frames they describe. Byte strings are accepted as hexadecimal text or collections of bytes. Reply payload lengths are those of the protocol.""",
 ["inputs", "configurations"], "All field values of all commands and replies, all link parameters.",
 "No test covers encoding.", [E], [("Command.encode, encode_*", E), ("ReaderFrame/TagFrame durations and *_duration helpers", E)],
 ["encode(), bitlen, duration"])
prop("C24", "Link timings follow the standard's table for every rate",
 """T1 to T7, the backscatter link frequency and the frequency tolerance are those of the standard's tables for
 every RTcal, TRcal, divide ratio and temperature range; minimum never exceeds maximum, and every accessor
 (single, pair, list) returns the same values for the same parameters, defaults in force included. Each segment of the tolerance table includes its
 lower end; an unknown timing is refused.""",
 ["inputs", "configurations"], "All RTcal, TRcal (all table segments and boundaries), divide ratios and temperature ranges.",
 "No test covers timings.", [E], [("get_frt, min_link_t, max_link_t, link_t*", E)], ["returned values"])
prop("C25", "Explicit arguments override settings and settings reach every component",
 """A model is built with every setting in force in the component it belongs to (reader, tags through
 the generator, medium, statistics, kernel), with derived calibration symbols following the Tari in force. An explicitly given argument takes
 precedence over the setting of the same meaning and affects nothing else; building one model never changes another, nor the settings.""",
 ["configurations"], "All combinations of settings and explicit arguments, all sequences of models built.",
 "No test builds the RFID model.", [C, O], [("create_model, Settings", C)], ["attributes of the built Model"])
prop("C26", "Parallel runs deliver each result for its own parameter value",
 """When exactly one command-line parameter has several values, each model is run once per distinct value (in the ping-pong and RFID models in ascending
 order; in tag-time once per given parameter set in the given order), all other parameters unchanged, and result i belongs to value i, whatever the number and
 speed of the workers. Several multi-valued parameters, or invalid scenarios and mismatched lists in tag-time, are
 rejected before anything runs; single values run one simulation with exactly those values.""",
 ["configurations", "schedules"], "All lists of values for each parameter, all worker interleavings.",
 "No test touches the command-line interfaces.", [PC, TC, RC],
 [("check_vars_for_multiprocessing, run_multiple_simulation/prepare_multiple_simulation", PC)],
 ["arguments and results of the per-run function", "exceptions"])
prop("C27", "The command line offers every model",
 """Every model package with a command-line entry point is listed, in alphabetical order, and can be run by its package name with
 its own arguments; packages that do not provide a usable entry point are reported and neither listed nor runnable, and do not prevent
 the others from being offered.""",
 ["configurations"], "All sets of model packages, valid and broken.", "No test covers the registry.", [M],
 [("__initialize__ in main.py", M)], ["output of `sim list`, commands of `sim run`"])
prop("C28", "The radio channel is the two-ray channel and its link budget adds up",
 """The received field is the direct ray plus the ray mirrored in the wall, each falling with its length, turned by its phase (Doppler included) and
 weighted by both antennas, the mirrored one also by the reflection coefficient: so the loss is the same both ways over a perfect wall, and does not change under a shift or mirroring along
 the wall. In decibels, received power = transmitted power + path loss + polarisation loss + gains + cable losses; nothing is received without power, and without Doppler
 nothing depends on time. The bit error rate follows the configured distribution, lies in [0, 1/2], is 1/2 without a signal and never grows with the
 signal-to-noise ratio, which is the power ratio times the symbols of a bit and its length; a power record shows the link at its moment.""",
 ["inputs", "configurations"], "All positions, directions, velocities, wall materials, antennas, powers, noises and moments.",
 "No test covers the channel.", [CH, O], [("two_ray_pathloss, reflection, rp_dipole, snr_full, ber", CH), ("Medium, Antenna, _TagPowerRecord", O)],
 ["returned losses, powers, SNR and BER", "power records"])
prop("C29", "A reader's antennas are used in turn, and every link is that of the one in force",
 """A reader with several antennas changes to the next one, cyclically, exactly once per switching interval counted from power-on; nothing changes while it is
 off; a power-on goes on with the antenna it had, or starts again with the first one if so configured. A single antenna always stays in force. Tags are powered and heard
 by the antenna in force at that moment only, and every power record and read record names that antenna and its position, and keeps it.""",
 ["configurations", "schedules", "histories"], "All numbers of antennas, intervals, power phases, power cuts and coincidences of these.",
 "No test covers antennas; coincidences of a switch with power cuts depend on the schedule.", [H, O],
 [("turn_reader_on, turn_reader_off, switch_reader_antenna", H), ("Reader.attach_antenna, select_next_antenna, turn_on; _TagRecord", O)],
 ["antenna in force after every event", "power and read records", "powers of tags and reader"])
prop("C30", "Results are shown and saved as they were obtained",
 """Whatever the number of results, what is printed at the end of a command shows the parameters as given and every result exactly, beside the value it was obtained for:
 one row per distinct value, in ascending order (tag-time: one mean time per transmission for each parameter set, in the given order); means are over all results; the plot, where
 there is one, has the same pairs. When saving is asked for (and only then) one text file under `results`, which need not exist before, holds the parameters and the results
 without loss; files saved in an earlier second stay as they were.""",
 ["inputs", "histories"], "All lists of values (repeated, unordered, of one distinct value), parameters and results (zeros, tiny, whole numbers), and histories of reports in one folder.",
 "No test covers the processing modules.", [PP, "pysim/models/tag_time/processing.py", RP], [("result_processing, save_results, plot_results", RP)],
 ["printed tables", "files in results", "arguments of Axes.plot"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
