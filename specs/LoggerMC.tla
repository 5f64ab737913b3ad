------------------------------ MODULE LoggerMC ------------------------------
EXTENDS Logger, TLC, Json, FiniteSets
CONSTANTS Levels, LogLevels, Plains, Exts
VARIABLES s, act
vars == <<s, act>>
SinkLevels == {0} \cup Levels
Cfgs == {[NoCfg EXCEPT !.level = l, !.con = (c # -1), !.conlvl = IF c = -1 THEN 0 ELSE c,
            !.file = (f # -1), !.filelvl = IF f = -1 THEN 0 ELSE f,
            !.base = IF f = -1 THEN "" ELSE "base", !.ext = IF f = -1 THEN "" ELSE x,
            !.sep = IF f = -1 THEN "" ELSE "-", !.plain = IF f = -1 THEN TRUE ELSE p] :
          l \in Levels, c \in {-1} \cup SinkLevels, f \in {-1} \cup SinkLevels, x \in Exts, p \in Plains}
Init == s = NewLogger("7") /\ act = [op |-> "start"]
Setup(c, force) == /\ s' = DoSetup(s, c, force)
                   /\ act' = [op |-> "setup", cfg |-> c, force |-> force]
WriteRec(lvl) == /\ s.setup /\ UNCHANGED s
              /\ act' = [op |-> "log", lvl |-> lvl, to |-> Reaches(s, lvl)]
Next == \/ \E c \in Cfgs, f \in BOOLEAN : Setup(c, f)
        \/ \E lvl \in LogLevels : WriteRec(lvl)
Spec == Init /\ [][Next]_vars
SecondSetupIgnored == [][(act'.op = "setup" /\ s.setup /\ ~act'.force) => s' = s]_vars
ForcedSetupReplaces == [][(act'.op = "setup" /\ act'.force) => s'.cfg = act'.cfg]_vars
OnlyConfiguredSinks == act.op = "log" =>
   /\ ("console" \in act.to => s.cfg.con) /\ (\A x \in act.to \ {"console"} : s.cfg.file /\ x = s.fname)
NothingBelowTheLoggerLevel == (act.op = "log" /\ act.to # {}) => act.lvl >= s.cfg.level
Monotone == \A a, b \in LogLevels : a <= b => Reaches(s, a) \subseteq Reaches(s, b)
HighestReachesAll == \A a \in LogLevels : (\A b \in Levels : a >= b) =>
   Cardinality(Reaches(s, a)) = (IF s.cfg.con THEN 1 ELSE 0) + (IF s.cfg.file THEN 1 ELSE 0)
View == s
EmitEdge == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))
EmitState == act.op # "start" \/ PrintT(ToJson([s0 |-> s]))
=============================================================================
