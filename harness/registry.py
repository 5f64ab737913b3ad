"""Which check decides which property."""
REPLAY = ("TLA+ spec model-checked with TLC; every transition of its state graph replayed on the code; "
          "recorded executions validated against the spec by TLC")
def _c(module, fn, note, technique=REPLAY):
    return dict(module=module, fn=fn, note=note, technique=technique)
CALLS = "TLA+ specification model-checked with TLC; recorded calls of the real code decided by TLC against the specification"
KN = ("All programs of handlers within the stated bounds (identifiers, delays, operations per callback, limits) are explored "
      "and every transition replayed on the real kernel; longer random programs are validated by TLC. Trusts TLC, the "
      "controllable clock and the projection to returned values and handler calls.")
CHECKS = {
 "C01": _c("kernel_check", "kernel", KN),
 "C02": _c("kernel_check", "kernel", KN),
 "C03": _c("kernel_check", "kernel", KN),
 "C04": _c("kernel_check", "kernel", KN),
 "C06": _c("kernel_check", "kernel", KN),
 "C05": _c("kernel_check", "c05", "Exhaustive for the queue up to 4-5 identifiers and 3-4 times (all transitions replayed on the real queue); random histories beyond that are validated by TLC. Trusts TLC and the projection (len, empty, to_list, returned values)."),
  "C07": _c("logger_check", "c07", "Every pair of configurations over two levels and both sinks replayed on the real logger; random configurations, levels, names, run ids and whole simulations validated by TLC. Loggers of one process have distinct names (the standard library shares loggers by name)."),
 "C08": _c("pingpong_check", "pp", "Loss patterns and small configurations model-checked; every snapshot of real runs (short runs covering the patterns, long runs, cut runs) decided by TLC; the loss probability itself is measured to 1e-6 by bisection over the draw, frequencies lie within 8 standard deviations.", "TLA+ spec model-checked with TLC; recorded executions of the real model validated against the spec by TLC"),
 "C09": _c("pingpong_check", "pp", "Statistics decided at every instant of recorded runs, results against the spec's own account of the run; multi-valued command lines run end to end.", "TLA+ spec model-checked with TLC; recorded executions of the real model validated against the spec by TLC"),
 "C10": _c("tagtime_check", "c10", "All success/failure patterns up to the bound model-checked; real runs of all scenarios decided attempt by attempt; success probabilities measured to 1e-6 by bisection over the draw, frequencies within 8 standard deviations.", "TLA+ spec model-checked with TLC; recorded executions of the real model validated against the spec by TLC"),
 "C11": _c("tagtime_check", "c11", "Matrices compared entry by entry with the chain of the spec, deterministic chains exactly, branch weights measured to 1e-6 by bisection over the draw, random chains within 8 standard deviations.", "recorded calls of the real code decided by TLC against the TLA+ chain"),
 "C12": _c("tagtime_check", "c12", "Absorption times compared to 1e-6 with the exact value of the chain, on inputs whose exact value is an integer.", "recorded calls of the real code decided by TLC against the TLA+ chain"),
  "C14": _c("fsm_check", "tag", "Every (state, command) pair of the tag's state graph over two to three sessions and Q up to 2 is driven through the real tag, random histories use all sessions, encodings and Q; TLC decides every reaction. Random choices within 8 standard deviations.", "TLA+ spec model-checked with TLC; its state graph drives the real tag, whose recorded reactions TLC validates against the spec"),
  "C15": _c("fsm_check", "tag", "As C14; flag persistence with gaps shorter and longer than the configured time.", "TLA+ spec model-checked with TLC; its state graph drives the real tag, whose recorded reactions TLC validates against the spec"),
  "C16": _c("fsm_check", "reader", "Every (state, input) pair of the reader's state graph for five configurations and Q up to 2 is driven through the real reader; random histories with random parameters; TLC decides command, fields, announcements and errors.", "TLA+ spec model-checked with TLC; its state graph drives the real reader, whose recorded reactions TLC validates against the spec"),
  "C17": _c("fsm_check", "reader", "As C16, targets of all Queries for one to five rounds per target, with rounds cut by power, adjusted and ended by any outcome.", "TLA+ spec model-checked with TLC; its state graph drives the real reader, whose recorded reactions TLC validates against the spec"),
  "C18": _c("system_check", "system", "Every event of whole runs (collisions, losses, departures in mid-slot, power cuts) decided by TLC against the composition of reader, tags and medium; real runs steered along the behaviours TLC finds in the composition (InventoryMC), power cuts, arrivals and departures at every moment of scripted runs; the reception probability measured by bisection over the draw, frequencies within 8 standard deviations.", "TLA+ spec model-checked with TLC; recorded executions of the real model validated event by event against the spec by TLC"),
  "C19": _c("system_check", "system", "As C18, with random links (Tari, RTcal, TRcal, divide ratio, temperature, encoding, pilot); every command, timeout and transaction to a few ns; reader frames also in isolation.", "TLA+ spec model-checked with TLC; recorded executions of the real model validated event by event against the spec by TLC"),
  "C20": _c("system_check", "system", "As C18 with adjustment on and off, all steps from 0.1 to 1 and Q from 0 to 15; tags also driven alone through every (state, QueryAdjust) pair; scripted runs cut, joined and left at every moment.", "TLA+ spec model-checked with TLC; recorded executions of the real model validated event by event against the spec by TLC"),
  "C21": _c("system_check", "system", "As C18; arrivals, positions, departures, counters and reported results of every run.", "TLA+ spec model-checked with TLC; recorded executions of the real model validated event by event against the spec by TLC"),
  "C22": _c("system_check", "system", "As C18; duty cycle, silence, power of every tag, and that nothing acts after a power-down; tags also driven alone through power changes; steered runs along the behaviours of the composition, cuts at every moment.", "TLA+ spec model-checked with TLC; recorded executions of the real model validated event by event against the spec by TLC"),
 "C13": _c("frames_check", "c13", "Random exchanges (message, chunks, encoding, divide ratio, Tari, pilot, BER vectors) against the specified exchange: lengths in bits, times to 5 ns.", CALLS),
 "C23": _c("frames_check", "c23", "Every Query and all small fields of the other commands exhaustively, word pointers up to 2^28, random links; defaults built in and changed.", CALLS),
 "C24": _c("frames_check", "c24", "Random calibration symbols over all segments of the tolerance table, 2 ns off and exactly on its ends; every accessor; defaults built in and changed.", CALLS),
 "C25": _c("config_check", "c25", "Routing of every setting and argument model-checked over subsets of arguments and changed settings; random histories of settings objects, builds, tags, limits and runs, all objects looked at after every step.", CALLS),
 "C26": _c("cli_check", "c26", "Every command line over a small alphabet and every finishing order of the pool model-checked; the enumerated finishing orders imposed on the real pools, random lists with repetitions, single values and rejected command lines of the three models run for real.", "TLA+ specification model-checked with TLC; its behaviours drive the real command lines, whose recorded runs and reports TLC validates"),
 "C27": _c("registry_check", "c27", "Every set of up to four packages of six kinds model-checked; trees of packages of all kinds (usable, unusable in eleven ways, not packages at all) scanned and run through the real command line.", CALLS),
 "C28": _c("channel_check", "c28", "The laws of the channel model-checked on all small exact scenes (integer geometry, quarter-turn phases); thousands of random exact scenes, the tables of the pattern, the reflection, the SNR and the bit error rates, and links probed and recorded in running models with random media, antennas, tilts and speeds.", CALLS),
 "C29": _c("antenna_check", "c29", "The switching of up to four antennas model-checked over intervals and power phases; every call on a reader's antennas replayed in every state; whole runs with one to five antennas, every event, record and link decided by TLC."),
 "C30": _c("report_check", "c30", "Every history of up to three reports (saved or not, within a second or over several) model-checked and its patterns replayed in a working folder; random lists of values, parameters and made-up results for all three models, and results of real runs.", "TLA+ spec model-checked with TLC; recorded reports and files of the real code validated against it by TLC"),
}
