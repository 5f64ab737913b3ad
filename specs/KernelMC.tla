------------------------------ MODULE KernelMC ------------------------------
(* A system of simulations: each is built, run once, possibly from inside a *)
(* handler of another one.  All programs of handlers are explored: between  *)
(* the entry of a callback and its end any sequence of operations may occur.*)
EXTENDS Kernel, TLC, Json
CONSTANTS Sims, Delays, MaxIds, Ops, LimT, LimR, LimN, MaxEl, CtxKinds, BadKinds, MaxOps

VARIABLES ks, stack, ops, act, log
vars == <<ks, stack, ops, act, log>>
(* ks: kernel of each simulation; stack: running simulations, innermost     *)
(* last; ops: operations since the last entry or exit of a callback;        *)
(* log: history (due times, executions, cancellations), for properties only *)

Top == IF stack = <<>> THEN 0 ELSE stack[Len(stack)]
OnStack == {stack[n] : n \in 1 .. Len(stack)}

(* 9 stands for "no limit" in the constants *)
L(x) == IF x = 9 THEN NoLimit ELSE x

Init == /\ ks \in [Sims -> {NewKernel([t |-> L(t), r |-> L(r), n |-> L(n)], c) :
                            t \in LimT, r \in LimR, n \in LimN, c \in CtxKinds}]
        /\ stack = <<>> /\ ops = 0 /\ act = [op |-> "start"]
        /\ log = [s \in Sims |-> [due |-> <<>>, runs |-> <<>>, dead |-> {}, fins |-> 0,
                                  rejected |-> 0]]

Log(s, f, v) == log' = [log EXCEPT ![s][f] = v]
Room == ops < MaxOps
More == ops' = ops + 1
May(o) == o \in Ops

(* Building and running happen at top level or inside any callback.         *)
AtRest == IF stack = <<>> THEN TRUE ELSE May("nest") /\ Active(ks[Top])

DoBuild(s) == /\ AtRest /\ ks[s].phase = "unbuilt"
              /\ ks' = [ks EXCEPT ![s] = Build(@)]
              /\ act' = [op |-> "build", s |-> s, lim |-> ks[s].lim, ctx |-> ks[s].ctx]
              /\ UNCHANGED <<stack, ops, log>>

DoBegin(s) == /\ AtRest /\ ks[s].phase = "built"
              /\ ks' = [ks EXCEPT ![s] = Begin(@)] /\ stack' = Append(stack, s)
              /\ ops' = 0
              /\ act' = [op |-> "begin", s |-> s, ctx |-> ks[s].ctx]
              /\ UNCHANGED log

(* An operation of the innermost callback on its own or an outer simulation *)
Target(s) == Active(ks[Top]) /\ Room /\ s \in (IF May("outer") THEN OnStack ELSE {Top})

DoSched(s, d) ==
  /\ stack # <<>> /\ Target(s) /\ May("sched") /\ ks[s].q.next < MaxIds
  /\ ks' = [ks EXCEPT ![s] = ScheduleAt(@, @.now + d)] /\ More
  /\ act' = [op |-> "sched", s |-> s, d |-> d, r |-> ks[s].q.next]
  /\ Log(s, "due", Append(log[s].due, ks[s].now + d))
  /\ UNCHANGED stack

DoBad(s, kind) ==
  /\ stack # <<>> /\ Target(s) /\ May("bad")
  /\ act' = [op |-> "bad", s |-> s, kind |-> kind] /\ More
  /\ Log(s, "rejected", 1)
  /\ UNCHANGED <<ks, stack>>

(* id -1 stands for None, MaxIds for an identifier that never existed       *)
DoCancel(s, id) ==
  /\ stack # <<>> /\ Target(s) /\ May("cancel")
  /\ ks' = [ks EXCEPT ![s] = Cancel(@, id)] /\ More
  /\ act' = [op |-> "cancel", s |-> s, id |-> id, r |-> CancelResult(ks[s], id)]
  /\ IF CancelResult(ks[s], id) = 1 THEN Log(s, "dead", log[s].dead \cup {id}) ELSE UNCHANGED log
  /\ UNCHANGED stack

DoStop(s) == /\ stack # <<>> /\ Target(s) /\ May("stop")
             /\ ks' = [ks EXCEPT ![s] = Stop(@)] /\ More
             /\ act' = [op |-> "stop", s |-> s] /\ UNCHANGED <<stack, log>>

(* Real time is common: it passes for every running simulation.             *)
DoTick == /\ stack # <<>> /\ Active(ks[Top]) /\ May("tick") /\ Room
          /\ \A s \in OnStack : ks[s].el < MaxEl
          /\ ks' = [s \in Sims |-> IF s \in OnStack THEN Tick(ks[s]) ELSE ks[s]] /\ More
          /\ act' = [op |-> "tick", s |-> Top] /\ UNCHANGED <<stack, log>>

DoCtx(s) == /\ stack # <<>> /\ Target(s) /\ May("ctx")
            /\ ks' = [ks EXCEPT ![s] = SetCtx(@, "installed")] /\ More
            /\ act' = [op |-> "ctx", s |-> s] /\ UNCHANGED <<stack, log>>

DoEnd == /\ stack # <<>> /\ Active(ks[Top])
         /\ ks' = [ks EXCEPT ![Top] = EndCallback(@)] /\ ops' = 0
         /\ act' = [op |-> "end", s |-> Top] /\ UNCHANGED <<stack, log>>

DoStep == /\ stack # <<>> /\ StepEnabled(ks[Top])
          /\ ks' = [ks EXCEPT ![Top] = Step(@)] /\ ops' = 0
          /\ act' = [op |-> "step", s |-> Top, id |-> ks'[Top].cur, now |-> ks'[Top].now]
          /\ Log(Top, "runs", Append(log[Top].runs, [id |-> ks'[Top].cur, at |-> ks'[Top].now]))
          /\ UNCHANGED stack

DoFinish == /\ stack # <<>> /\ FinishEnabled(ks[Top])
            /\ ks' = [ks EXCEPT ![Top] = Finish(@)] /\ ops' = 0
            /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
            /\ act' = [op |-> "finish", s |-> Top, now |-> ks[Top].now,
                       served |-> ks[Top].served, el |-> ks[Top].el,
                       reasons |-> TrueReasons(ks[Top]), stopped |-> ks[Top].stopped,
                       last |-> ks[Top].last, ctx |-> ks[Top].ctx]
            /\ Log(Top, "fins", log[Top].fins + 1)

Next == \/ \E s \in Sims : \/ DoBuild(s) \/ DoBegin(s) \/ DoStop(s) \/ DoCtx(s)
                           \/ \E d \in Delays : DoSched(s, d)
                           \/ \E k \in BadKinds : DoBad(s, k)
                           \/ \E id \in -1 .. MaxIds : DoCancel(s, id)
        \/ DoTick \/ DoEnd \/ DoStep \/ DoFinish

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(DoEnd \/ DoStep \/ DoFinish)

----------------------------------------------------------------------------
(* Properties, stated over the history.                                     *)
Runs(s) == log[s].runs

\* C01
TimeOrdered == \A s \in Sims : \A a, b \in 1 .. Len(Runs(s)) :
                 a < b => Runs(s)[a].at <= Runs(s)[b].at
TiesInSchedulingOrder == \A s \in Sims : \A a, b \in 1 .. Len(Runs(s)) :
                 (a < b /\ Runs(s)[a].at = Runs(s)[b].at) => Runs(s)[a].id < Runs(s)[b].id
RunsWhenDue == \A s \in Sims : \A a \in 1 .. Len(Runs(s)) :
                 Runs(s)[a].at = log[s].due[Runs(s)[a].id + 1]
\* C02
RunIds(s) == {Runs(s)[a].id : a \in 1 .. Len(Runs(s))}
AtMostOnce == \A s \in Sims : Cardinality(RunIds(s)) = Len(Runs(s))
CancelledNeverRuns == \A s \in Sims : RunIds(s) \cap log[s].dead = {}
DrainedMeansAllRan == \A s \in Sims :
   (ks[s].phase = "done" /\ ks[s].reasons = {"NO_MORE_EVENTS"}) =>
      RunIds(s) \cup log[s].dead = 0 .. (Len(log[s].due) - 1)
PendingIsTheRest == \A s \in Sims :
   PendingIds(ks[s].q) = (0 .. (Len(log[s].due) - 1)) \ (RunIds(s) \cup log[s].dead)
\* C03
FinishedForAReason == \A s \in Sims : ks[s].phase = "done" => ks[s].reasons # {}
LimitsRespected == \A s \in Sims :
   /\ (ks[s].lim.n # NoLimit => Len(Runs(s)) <= ks[s].lim.n)
   /\ (ks[s].lim.t # NoLimit => \A a \in 1 .. Len(Runs(s)) - 1 : Runs(s)[a].at <= ks[s].lim.t)
NoStepAfterStop == [][\A s \in Sims : (ks[s].stopped /\ ks[s].phase = "idle") => ks'[s].phase # "handler"]_vars
FinalizedOnce == \A s \in Sims : log[s].fins = (IF ks[s].phase = "done" THEN 1 ELSE 0)
ServedCounts == \A s \in Sims : ks[s].phase \in {"idle", "done"} => ks[s].served = Len(Runs(s))
\* C04
RejectedLeavesNoTrace == [][act'.op = "bad" => ks' = ks]_vars
\* C06
Isolation == [][\A s \in Sims : ks'[s] # ks[s] =>
                   (act'.s = s \/ (act'.op = "tick" /\ s \in OnStack
                                   /\ [ks'[s] EXCEPT !.el = 0] = [ks[s] EXCEPT !.el = 0]))]_vars
BuildRunsNothing == \A s \in Sims : ks[s].phase \in {"unbuilt", "built"} =>
                       (ks[s].q = EmptyQ /\ Runs(s) = <<>> /\ ks[s].el = 0)
WellNested == \A s \in Sims : (s \in OnStack) <=> ks[s].phase \in {"init", "idle", "handler"}
\* liveness: every run ends (MaxIds bounds the events)
Terminates == \A s \in Sims : (ks[s].phase = "init") ~> (ks[s].phase = "done")

----------------------------------------------------------------------------
View == <<ks, stack, ops>>
St == [ks |-> [s \in Sims |-> [ph |-> ks[s].phase, now |-> ks[s].now, p |-> ks[s].q.pend,
       n |-> ks[s].q.next, c |-> ks[s].cur, v |-> ks[s].served, st |-> ks[s].stopped,
       el |-> ks[s].el, l |-> ks[s].lim, x |-> ks[s].ctx, la |-> ks[s].last]], k |-> stack, o |-> ops]
EmitEdge == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
EmitState == act.op # "start" \/ PrintT(ToJson([s0 |-> St]))
=============================================================================
