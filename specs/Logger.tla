------------------------------- MODULE Logger -------------------------------
(* A model logger: configuration in force, run identifier, sinks.           *)
(* A sink level of 0 means "not given".  name is [base, ext, sep, plain]:   *)
(* plain says that the run identifier is not put into the file name.        *)
EXTENDS Integers, Sequences

NoCfg == [level |-> 0, con |-> FALSE, conlvl |-> 0, file |-> FALSE, filelvl |-> 0,
          base |-> "", ext |-> "", sep |-> "", plain |-> TRUE]
NewLogger(rid) == [cfg |-> NoCfg, setup |-> FALSE, rid |-> rid, fname |-> "", held |-> <<>>]

FileName(c, rid) ==
  IF c.plain THEN c.base \o c.ext
  ELSE IF c.ext \in {".log", ".LOG", ".Log"} THEN c.base \o c.sep \o rid \o c.ext
  ELSE c.base \o c.ext \o c.sep \o rid

DoSetup(s, c, force) ==
  IF s.setup /\ ~force THEN s
  ELSE [s EXCEPT !.cfg = c, !.setup = TRUE, !.fname = IF c.file THEN FileName(c, s.rid) ELSE "",
                 !.held = <<>>]

Own(lvl, c) == IF lvl = 0 THEN c.level ELSE lvl

(* The sinks a record of the given level reaches.                           *)
Reaches(s, lvl) ==
  (IF s.cfg.con /\ lvl >= s.cfg.level /\ lvl >= Own(s.cfg.conlvl, s.cfg) THEN {"console"} ELSE {})
  \cup (IF s.cfg.file /\ lvl >= s.cfg.level /\ lvl >= Own(s.cfg.filelvl, s.cfg) THEN {s.fname} ELSE {})

(* held: the records in the current log file, which a set-up starts afresh. *)
Write(s, lvl, tok) == IF s.cfg.file /\ s.fname \in Reaches(s, lvl) THEN [s EXCEPT !.held = Append(@, tok)] ELSE s
=============================================================================
