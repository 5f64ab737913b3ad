---------------------------- MODULE EventQueue ----------------------------
(* Abstract state of the event queue: the set of pending entries and the    *)
(* next identifier.  Time is any totally ordered integer (ticks or ranks).  *)
EXTENDS Integers, FiniteSets, Sequences

EmptyQ == [pend |-> {}, next |-> 0]

PushQ(q, t) == [pend |-> q.pend \cup {[id |-> q.next, time |-> t]},
                next |-> q.next + 1]

Earlier(a, b) == a.time < b.time \/ (a.time = b.time /\ a.id < b.id)

FirstQ(q) == CHOOSE e \in q.pend : \A f \in q.pend : f = e \/ Earlier(e, f)

PopQ(q) == [q EXCEPT !.pend = @ \ {FirstQ(q)}]

PendingIds(q) == {e.id : e \in q.pend}
IsPending(q, id) == id \in PendingIds(q)

CancelQ(q, id) == [q EXCEPT !.pend = {e \in @ : e.id # id}]

ClearQ(q) == [q EXCEPT !.pend = {}]
============================================================================
