----------------------------- MODULE QueueTrace -----------------------------
(* Decides whether recorded sequences of queue operations, with everything  *)
(* they returned, are behaviours of EventQueue.                             *)
EXTENDS EventQueue, TraceLib
VARIABLES i, l, q
tvars == <<i, l, q>>

(* linear in the queue, for the long histories: is the popped entry the     *)
(* first one?  (FirstQ itself is only evaluated to explain a refusal)       *)
PoppedFirst(e) == LET x == [id |-> e.id, time |-> e.t] IN
  x \in q.pend /\ \A f \in q.pend : f = x \/ Earlier(x, f)

After(e) ==
  CASE e.op = "push" -> PushQ(q, e.t)
    [] e.op = "pop" -> IF q.pend = {} THEN q
                       ELSE IF PoppedFirst(e) THEN CancelQ(q, e.id) ELSE PopQ(q)
    [] e.op = "cancel" -> CancelQ(q, e.id)
    [] e.op = "clear" -> ClearQ(q)
    (* e.n times: push at time e.t, which is before everything pending, pop  *)
    [] e.op = "churn" -> [q EXCEPT !.next = @ + e.n]
    (* e.n pushes in a row, the k-th (from 0) at time (k * e.a) % e.m         *)
    [] e.op = "fill" -> [pend |-> q.pend \cup {[id |-> q.next + k, time |-> (k * e.a) % e.m] : k \in 0 .. e.n - 1},
                         next |-> q.next + e.n]
    (* every identifier that leaves e.r when divided by e.m is cancelled      *)
    [] e.op = "thin" -> [q EXCEPT !.pend = {x \in @ : x.id % e.m # e.r}]
    (* pop, e.n times                                                        *)
    [] e.op = "drain" -> [q EXCEPT !.pend = @ \ {[id |-> y[2], time |-> y[1]] : y \in Range(e.got)}]
    [] OTHER -> q

InOrder(got) == \A k \in 1 .. Len(got) - 1 : Earlier([id |-> got[k][2], time |-> got[k][1]], [id |-> got[k + 1][2], time |-> got[k + 1][1]])

Clauses(e) ==
  (CASE e.op = "push" -> {C("C05.push_id", e.id = q.next)}
     [] e.op = "pop" ->
          {C("C05.pop_raises_iff_empty", (e.ex # "") <=> (q.pend = {})),
           C("C05.pop_error_is_keyerror", e.ex \in {"", "KeyError"}),
           C("C05.pop_first", IF q.pend = {} \/ e.ex # "" \/ PoppedFirst(e) THEN TRUE
                              ELSE e.id = FirstQ(q).id),
           C("C05.pop_time", IF q.pend = {} \/ e.ex # "" \/ PoppedFirst(e) THEN TRUE
                             ELSE e.t = FirstQ(q).time),
           C("C05.pop_task", e.ex # "" \/ e.task = e.id)}
     [] e.op = "churn" -> {C("C05.push_id", e.pushed = <<[a |-> q.next, n |-> e.n]>>),
                           C("C05.pop_first", (\A x \in q.pend : x.time > e.t) => e.popped = <<[a |-> q.next, n |-> e.n]>>),
                           C("C05.pop_task", e.bad = 0)}
     [] e.op = "fill" -> {C("C05.push_id", e.pushed = <<[a |-> q.next, n |-> e.n]>>)}
     [] e.op = "drain" ->
          LET was == {[id |-> y[2], time |-> y[1]] : y \in Range(e.got)}
              last == [id |-> e.got[e.n][2], time |-> e.got[e.n][1]] IN
          {C("C05.pop_raises_iff_empty", Len(e.got) = e.n),
           C("C05.pop_task", e.bad = 0),
           C("C05.pop_first", Len(e.got) # e.n \/ (was \subseteq q.pend /\ InOrder(e.got) /\ \A x \in q.pend \ was : Earlier(last, x)))}
     [] e.op = "cancel" -> {C("C05.cancel_no_error", e.ex = "")}
     [] e.op = "clear" -> {C("C05.clear_no_error", e.ex = "")}
     [] OTHER -> {})
  \cup LET n == After(e) IN
       {C("C05.len", e.len = Cardinality(n.pend)),
        C("C05.empty", (e.empty = 1) <=> (n.pend = {})),
        (* full = 0: the listing was not observed at this step *)
        C("C05.list", e.full = 0 \/ (Range(e.list) = PendingIds(n) /\ Len(e.list) = Cardinality(n.pend)))}

TraceInit == i \in 1 .. Len(Traces) /\ l = 1 /\ q = EmptyQ
TraceNext ==
  /\ l <= Len(Traces[i].ev)
  /\ LET e == Traces[i].ev[l] IN Report(Clauses(e), i, l) /\ q' = After(e)
  /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
