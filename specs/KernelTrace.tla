----------------------------- MODULE KernelTrace -----------------------------
(* Decides whether the recorded history of one real simulation is a         *)
(* behaviour of Kernel.  Identifiers of the specification are the serial    *)
(* numbers of the accepted requests; ret[n+1] is what the code returned.    *)
EXTENDS Kernel, TraceLib
VARIABLES i, l, k, meta, rej, fins, smsg
tvars == <<i, l, k, meta, rej, fins, smsg>>

T == Traces[i]
Lim == [t |-> T.t, r |-> T.r, n |-> T.n]

NoneHeld(kk) == TrueReasons(kk) \ {"NO_MORE_EVENTS"} = {}
Known(u) == u \in DOMAIN meta
UidOf(x) == {u \in DOMAIN meta : meta[u].r = x}
CodeIds(S) == {meta[u].r : u \in S}

ErrorOf == [neg |-> "SchedulingInPastError", none |-> "ValueError",
            nocall |-> "TypeError", noargs |-> "TypeError"]

Drop(kk, u) == [kk EXCEPT !.q = CancelQ(@, u)]

After(e) ==
  CASE e.op = "begin" -> Begin(k)
    [] e.op = "sched" -> ScheduleAt(k, e.due)
    [] e.op = "cancel" -> LET us == UidOf(e.id) \cap PendingIds(k.q)
                          IN IF us = {} THEN k ELSE Cancel(k, CHOOSE u \in us : TRUE)
    [] e.op = "stop" -> Stop(k)
    [] e.op = "tick" -> [k EXCEPT !.el = @ + e.d]
    [] e.op = "end" -> EndCallback(k)
    [] e.op = "run" -> [Drop(k, e.uid) EXCEPT !.phase = "handler", !.now = e.tm, !.cur = e.uid]
    [] e.op = "fin" -> Finish(k)
    (* e.n events, each scheduling the next one, seen from inside the last:  *)
    (* the running event is the first of them                                *)
    [] e.op = "chain" -> [k EXCEPT !.served = @ + e.n, !.q.next = @ + e.n, !.now = e.tm,
                                   !.cur = k.q.next + e.n - 1]
    [] OTHER -> k

Entry(u) == CHOOSE x \in k.q.pend : x.id = u

OpClauses(e) ==
  CASE e.op = "begin" ->
         {C("C06.init_once", k.phase = "unbuilt"), C("C06.init_args", e.argsok = 1),
          C("C06.fresh_context", e.fresh = 1), C("C06.build_runs_nothing", e.clean = 1),
          C("C01.init_clock", e.tm = T.zero)}
    [] e.op = "sched" ->
         {C("C02.id_given", e.r >= 0), C("C02.id_fresh", UidOf(e.r) = {}),
          C("C04.id_not_consumed", (e.uid \in rej) => e.r = k.q.next),
          C("C06.ids_from_zero", e.r = k.q.next)}
    [] e.op = "bad" ->
         {C("C04.error", \E n \in 1 .. Len(e.kinds) : ErrorOf[e.kinds[n]] \in Range(e.ex))}
    [] e.op = "cancel" ->
         {C("C02.cancel_result",
            e.r = (IF UidOf(e.id) \cap PendingIds(k.q) # {} THEN 1 ELSE 0))}
    [] e.op = "run" ->
         {C("C02.runs_once", IsPending(k.q, e.uid)),
          C("C02.handler_and_args", Known(e.uid) /\ e.argsok = 1 /\ e.h = meta[e.uid].h),
          C("C01.order", k.q.pend = {} \/ IF IsPending(k.q, e.uid) THEN LET x == Entry(e.uid) IN \A y \in k.q.pend : y = x \/ Earlier(x, y)
                         ELSE FALSE),
          C("C01.clock", ~IsPending(k.q, e.uid) \/ e.tm = Entry(e.uid).time),
          C("C01.one_at_a_time", k.phase = "idle"),
          C("C03.no_event_after_limit", NoneHeld(k))}
    [] e.op = "chain" ->
         {C("C02.id_fresh", e.runs = <<[a |-> k.q.next, n |-> e.n]>>),
          C("C01.order", e.bad = 0 /\ \A y \in k.q.pend : y.time > e.tm),
          C("C03.no_event_after_limit", k.lim.n = NoLimit \/ k.served + e.n < k.lim.n)}
    [] e.op = "fin" ->
         {C("C03.finalizer_once", fins = 0), C("C03.finalizer_last", k.phase = "idle"),
          C("C03.goes_on", ~MayContinue(k)),
          C("C02.all_ran", NoneHeld(k) => k.q.pend = {}),
          C("C01.fin_clock", e.tm = k.now)}
    [] e.op = "report" ->
         {C("C03.finalizer_once", fins = 1),
          C("C03.reason", e.reason \in TrueReasons(k)),
          C("C03.served", e.served = k.served), C("C03.final_time", e.rt = k.now),
          C("C03.elapsed", Near(e.el, k.el, 1)),
          C("C03.message", e.msg = smsg),
          C("C03.last_handler", k.last = NoEvent \/ ~Known(k.last) \/ e.lh = meta[k.last].h),
          C("C03.returned", e.finok = 1 /\ e.ctxok = 1), C("C06.context_returned", e.ctxok = 1)}
    [] OTHER -> {}

Clauses(e, n) ==
  OpClauses(e)
  \cup {C("C01.clock_moves_only_with_events", e.op \in {"run", "chain"} \/ e.tm = n.now),
        C("C06.context_seen", e.cx = 1),
        C("C03.reported", l < Len(T.ev) \/ e.op = "report"),
        C("C02.future_events",
          e.fo = 0 \/ e.op \in {"sched", "bad"} \/ LET P == CodeIds(PendingIds(n.q)) IN
             Len(e.f1) = Cardinality(P) /\ (Range(e.f1) = P \/ Range(e.f0) = P)),
        C("C04.no_event_added", e.op # "bad" \/ e.fo = 0 \/ LET P == CodeIds(PendingIds(n.q)) IN
             Len(e.f1) = Cardinality(P) /\ (Range(e.f1) = P \/ Range(e.f0) = P)),
        C("C04.clock_unchanged", e.op # "bad" \/ e.tm = k.now)}

TraceInit == /\ i \in 1 .. Len(Traces) /\ l = 1 /\ fins = 0 /\ meta = <<>> /\ rej = {} /\ smsg = ""
             /\ k = NewKernel(Lim, "any") /\ TRUE

TraceNext ==
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
       /\ k' = After(e)
       /\ meta' = CASE e.op = "sched" -> meta @@ (k.q.next :> [r |-> e.r, h |-> e.h])
                    [] e.op = "chain" -> meta @@ (k.q.next + e.n - 1 :> [r |-> k.q.next + e.n - 1, h |-> e.h])
                    [] OTHER -> meta
       /\ rej' = IF e.op = "bad" THEN rej \cup {k.q.next} ELSE rej
       /\ smsg' = IF e.op = "stop" THEN e.m ELSE smsg
       /\ fins' = fins + (IF e.op = "fin" THEN 1 ELSE 0)
       /\ Report(Clauses(e, k'), i, l)
  /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
