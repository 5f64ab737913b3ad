----------------------------- MODULE ConfigTrace -----------------------------
(* Histories of settings objects changed, models built with explicit         *)
(* arguments, and models run; after every step every settings object and     *)
(* every model built so far is looked at.                                    *)
EXTENDS TraceLib, Config
VARIABLES i, l,
  st,     \* settings objects as they should be
  mo      \* models as they should be: [s |-> settings at build time, k |-> arguments]
tvars == <<i, l, st, mo>>
T == Traces[i]
Put(f, j, v) == IF j <= Len(f) THEN [f EXCEPT ![j] = v] ELSE Append(f, v)
St2(e) == CASE e.op = "settings" -> Put(st, e.o, e.v)
            [] e.op = "set" -> [st EXCEPT ![e.o][e.f] = e.v, ![e.o].n = e.n]
            [] OTHER -> st
Mo2(e) == IF e.op = "build" THEN Append(mo, [s |-> st[e.o], k |-> e.k]) ELSE mo
ModelOK(m, g, lbl) ==
  {C("C25." \o lbl \o "_" \o Map[j][1], g[Map[j][1]] = InForce(m.s, m.k, Map[j][2], Map[j][3])) : j \in 1 .. Len(Map)}
  \cup {C("C25." \o lbl \o "_rtcal", Near(g.n.rtcal, Rtcal(m.s, m.k), 4)),
        C("C25." \o lbl \o "_trcal", Near(g.n.trcal, Trcal(m.s, m.k), 32)),
        C("C25." \o lbl \o "_tid_bits", g.n.tid_bitlen = TidBits(m.s, m.k)),
        C("C25." \o lbl \o "_reads_tid", g.read_tid_bank = (IF ReadsTid(m.s, m.k) THEN "True" ELSE "False")),
        C("C25." \o lbl \o "_power_control", g.power_control = Power(m.s)),
        C("C25." \o lbl \o "_q_fp", g.q_fp = QFp(m.s)),
        C("C25." \o lbl \o "_one_of_each", g.one)}
Clauses(e) ==
  LET m2 == Mo2(e)  s2 == St2(e) IN
  {C("C25.settings_unchanged", Len(e.st) = Len(s2) /\ \A j \in 1 .. Len(s2) : e.st[j] = s2[j])}
  \cup UNION {ModelOK(m2[j], e.mo[j], IF e.op = "build" /\ j = Len(m2) THEN "built" ELSE "kept") : j \in 1 .. Len(m2)}
  \cup (IF e.op # "tag" THEN {} ELSE LET m == mo[e.j] IN
     {C("C25.tag_" \o TagMap[j][1], e.g[TagMap[j][1]] = InForce(m.s, m.k, TagMap[j][2], TagMap[j][3])) : j \in 1 .. Len(TagMap)}
     \cup {C("C25.tag_tid_bits", e.tidbits = Max(TidBits(m.s, m.k), 16)), C("C25.tag_follows_query", e.link)})
  \cup (IF e.op # "limits" THEN {} ELSE
     {C("C25.own_model_is_run", e.ctx),
      C("C25.kernel_limits", CASE e.kind = "none" -> e.n = 100 [] e.kind = "real" -> e.n < 100
                               [] OTHER -> Near(e.n, e.given, 1))})
TraceInit == i \in 1 .. Len(Traces) /\ l = 1 /\ st = <<>> /\ mo = <<>>
TraceNext == /\ l <= Len(T.ev)
             /\ Report(Clauses(T.ev[l]), i, l)
             /\ st' = St2(T.ev[l]) /\ mo' = Mo2(T.ev[l])
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
