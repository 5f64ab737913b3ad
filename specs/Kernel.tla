------------------------------- MODULE Kernel -------------------------------
(* One simulation: its life cycle, clock, pending events, limits, context.  *)
(* Times are integers (ticks in model checking, ranks of the real floating  *)
(* point times in trace validation).  Limits of -1 mean "no limit".         *)
EXTENDS EventQueue

NoLimit == -1
NoEvent == -1

NewKernel(lim, ctx) ==
  [phase |-> "unbuilt", now |-> 0, q |-> EmptyQ, cur |-> NoEvent, served |-> 0,
   stopped |-> FALSE, el |-> 0, lim |-> lim, ctx |-> ctx, last |-> NoEvent,
   reasons |-> {}]

Active(k) == k.phase \in {"init", "handler"}

Over(limit, value) == limit # NoLimit /\ value > limit
Reached(limit, value) == limit # NoLimit /\ value >= limit

(* A reason a finished run may report: one that is true of the run.         *)
TrueReasons(k) ==
  (IF k.q.pend = {} THEN {"NO_MORE_EVENTS"} ELSE {})
  \cup (IF Over(k.lim.t, k.now) THEN {"REACHED_SIM_TIME_LIMIT"} ELSE {})
  \cup (IF Over(k.lim.r, k.el) THEN {"REACHED_REAL_TIME_LIMIT"} ELSE {})
  \cup (IF Reached(k.lim.n, k.served) THEN {"REACHED_NUM_EVENTS_LIMIT"} ELSE {})
  \cup (IF k.stopped THEN {"STOPPED"} ELSE {})

MayContinue(k) == TrueReasons(k) = {}

Build(k) == [k EXCEPT !.phase = "built"]
Begin(k) == [k EXCEPT !.phase = "init"]
ScheduleAt(k, due) == [k EXCEPT !.q = PushQ(@, due)]
Cancel(k, id) == [k EXCEPT !.q = CancelQ(@, id)]
CancelResult(k, id) == IF IsPending(k.q, id) THEN 1 ELSE 0
Stop(k) == [k EXCEPT !.stopped = TRUE]
Tick(k) == [k EXCEPT !.el = @ + 1]
SetCtx(k, c) == [k EXCEPT !.ctx = c]

EndCallback(k) ==
  IF k.phase = "handler"
  THEN [k EXCEPT !.phase = "idle", !.served = @ + 1, !.last = k.cur, !.cur = NoEvent]
  ELSE [k EXCEPT !.phase = "idle"]

StepEnabled(k) == k.phase = "idle" /\ MayContinue(k)
Step(k) == LET e == FirstQ(k.q)
           IN [k EXCEPT !.phase = "handler", !.q = PopQ(@), !.now = e.time, !.cur = e.id]

FinishEnabled(k) == k.phase = "idle" /\ ~MayContinue(k)
Finish(k) == [k EXCEPT !.phase = "done", !.reasons = TrueReasons(k)]
=============================================================================
