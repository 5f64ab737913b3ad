---------------------------- MODULE IdentityTrace ----------------------------
(* The identifiers of the tags one generator makes, in order of creation.   *)
(* EPC and TID have the configured lengths; what follows the prefix is      *)
(* different for as many tags in a row as it has room for.                  *)
EXTENDS TraceLib
VARIABLES i, l
tvars == <<i, l>>
T == Traces[i]
Room(bits) == IF bits <= 0 THEN 1 ELSE IF bits >= 28 THEN 268435456 ELSE 16 ^ (bits \div 4)
Distinct(ids) == Cardinality(Range(ids)) = Len(ids)
(* any n in a row, looked at from both ends and from the middle             *)
OwnEach(ids, room) ==
  LET n == Len(ids)  w == Min(n, room)  a == (n - w) \div 2 IN
  \A k \in {0, a, n - w} : Distinct(SubSeq(ids, k + 1, k + w))
Clauses(e) ==
  {C("C21.epc_length", \A k \in 1 .. Len(e.epcs) : Len(e.epcs[k]) * 4 = e.epcbits),
   C("C21.tid_length", \A k \in 1 .. Len(e.tids) : Len(e.tids[k]) * 4 = e.tidbits),
   C("C21.own_epc", OwnEach(e.epcs, Room(e.epcbits - e.prefix))),
   C("C21.own_tid", OwnEach(e.tids, Room(e.tidbits - e.prefix))),
   C("C21.own_number", Distinct(e.ids))}
TraceInit == i \in 1 .. Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(T.ev)
             /\ Report(Clauses(T.ev[l]), i, l)
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
