------------------------------ MODULE QueueMC ------------------------------
(* The queue as a state machine, for exhaustive checking and for replay.    *)
EXTENDS EventQueue, TLC, Json
CONSTANTS Times, MaxIds, Unknown

VARIABLES q, popped, gone, act
vars == <<q, popped, gone, act>>
(* popped: sequence of popped entries, gone: ids cancelled or cleared       *)

Init == /\ q = EmptyQ /\ popped = <<>> /\ gone = {}
        /\ act = [op |-> "init"]

Push(t) == /\ q.next < MaxIds
           /\ q' = PushQ(q, t)
           /\ act' = [op |-> "push", t |-> t, r |-> q.next]
           /\ UNCHANGED <<popped, gone>>

Pop == /\ q.pend # {}
       /\ q' = PopQ(q)
       /\ popped' = Append(popped, FirstQ(q))
       /\ act' = [op |-> "pop", t |-> FirstQ(q).time, r |-> FirstQ(q).id]
       /\ UNCHANGED gone

PopEmpty == /\ q.pend = {}
            /\ act' = [op |-> "popempty"]
            /\ UNCHANGED <<q, popped, gone>>

Cancel(id) == /\ q' = CancelQ(q, id)
              /\ gone' = gone \cup ({id} \cap PendingIds(q))
              /\ act' = [op |-> "cancel", id |-> id]
              /\ UNCHANGED popped

Clear == /\ q' = ClearQ(q)
         /\ gone' = gone \cup PendingIds(q)
         /\ act' = [op |-> "clear"]
         /\ UNCHANGED popped

Next == \/ \E t \in Times : Push(t)
        \/ Pop \/ PopEmpty \/ Clear
        \/ \E id \in 0 .. (MaxIds - 1) \cup {Unknown} : Cancel(id)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties (stated over the history, independently of PopQ/FirstQ)       *)
PoppedIds == {popped[i].id : i \in 1 .. Len(popped)}

Conservation ==
  /\ 0 .. (q.next - 1) = PendingIds(q) \cup PoppedIds \cup gone
  /\ PendingIds(q) \cap PoppedIds = {} /\ PendingIds(q) \cap gone = {}
  /\ PoppedIds \cap gone = {}
  /\ Cardinality(q.pend) = Cardinality(PendingIds(q))
  /\ Cardinality(PoppedIds) = Len(popped)

FifoTies ==
  \A i, j \in 1 .. Len(popped) :
     (popped[i].time = popped[j].time /\ popped[i].id < popped[j].id) => i < j

PopIsMinimal ==
  [][Len(popped') > Len(popped) =>
       \A e \in q'.pend : LET p == popped'[Len(popped')]
                          IN p.time < e.time \/ (p.time = e.time /\ p.id < e.id)]_vars

CancelTouchesOne ==
  [][act'.op = "cancel" => q.pend \ q'.pend \subseteq
                           {e \in q.pend : e.id = act'.id}]_vars
----------------------------------------------------------------------------
(* Emission of the state graph for replay; history is projected away.       *)
View == q
EmitInit == TRUE
Proj(qq) == [pend |-> qq.pend, next |-> qq.next]
EmitEdge == PrintT(ToJson([s |-> Proj(q), a |-> act', t |-> Proj(q')]))
EmitState == act.op # "init" \/ PrintT(ToJson([s0 |-> Proj(q)]))
============================================================================
