--------------------------- MODULE GeneratorsTrace ---------------------------
(* Whole runs with several generators of tags: each makes its own tags at    *)
(* its own pace, up to its own number, on its own way; the run ends when the *)
(* configured number of tags has left, whoever made them.                    *)
EXTENDS TraceLib
VARIABLES i, l, s
tvars == <<i, l, s>>
T == Traces[i]
Tol == 3
Gs == 1 .. Len(T.g)
Mine(e, k) == {x \in Range(e.born) : x.g = k}
Ids(e) == {x.id : x \in Range(e.tags)}
Gone(e) == DOMAIN s.tg \ Ids(e)
NewTg(e) == [id \in (DOMAIN s.tg \ Gone(e)) \cup {x.id : x \in Range(e.born)} |->
               IF id \in DOMAIN s.tg THEN s.tg[id] ELSE LET x == CHOOSE y \in Range(e.born) : y.id = id IN [g |-> x.g, birth |-> e.tm, n |-> x.n]]
\* way made: speed in cm/s, time in units of 10 us, position in micrometres
Way(v, dt) == (v * (dt \div 10000)) \div 10
Clauses(e, tg) ==
  {C("C21.generators_in_time", \A x \in Range(e.born) : x.g \in Gs /\ Near(e.tm, s.nx[x.g], Tol)),
   C("C21.generators_miss_nothing", \A k \in Gs : s.made[k] < T.g[k].max /\ Mine(e, k) = {} => e.tm <= s.nx[k] + Tol),
   C("C21.generators_own_number", Len(e.born) <= 1 /\ \A k \in Gs : s.made[k] + Cardinality(Mine(e, k)) <= T.g[k].max),
   C("C21.generators_own_way", \A x \in Range(e.tags) : x.id \in DOMAIN tg =>
        LET g == T.g[tg[x.id].g] IN \A d \in 1 .. 3 : Near(x.pos[d], g.p0[d] + Way(g.v[d], x.upd - tg[x.id].birth), 2 + Abs(g.v[d]) \div 10)),
   C("C21.generators_own_life", /\ \A id \in Gone(e) : Near(e.tm, s.tg[id].birth + T.g[s.tg[id].g].life, Tol)
                                /\ \A id \in Ids(e) : id \in DOMAIN tg => e.tm <= tg[id].birth + T.g[tg[id].g].life + Tol),
   C("C21.generators_own_kind", \A x \in Range(e.born) : x.g \in Gs => x.kind = T.g[x.g].kind),
   C("C21.generators_own_identity", \A x \in Range(e.born) : (\A id \in DOMAIN s.tg : s.tg[id].n # x.n) /\ x.epc \notin s.used
                                     /\ (x.g \in Gs => 4 * Len(x.epc) = T.g[x.g].bits)),
   C("C21.generators_counted", e.made = SumSeq(s.made) + Len(e.born) /\ e.made = Len(e.tags) + e.gone),
   C("C21.stops_with_the_last", s.gone < T.num)}
TraceInit == /\ i \in 1 .. Len(Traces) /\ l = 1
             /\ s = [nx |-> [k \in Gs |-> T.g[k].iv], made |-> [k \in Gs |-> 0], tg |-> <<>>, used |-> {}, gone |-> 0]
TraceNext == /\ l <= Len(T.ev)
             /\ LET e == T.ev[l]
                    tg == NewTg(e) IN
                /\ Report(Clauses(e, tg), i, l)
                /\ s' = [nx |-> [k \in Gs |-> IF Mine(e, k) # {} THEN e.tm + T.g[k].iv ELSE s.nx[k]],
                         made |-> [k \in Gs |-> s.made[k] + Cardinality(Mine(e, k))], tg |-> tg,
                         used |-> s.used \cup {x.epc : x \in Range(e.born)}, gone |-> e.gone]
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
