----------------------------- MODULE FrameTrace -----------------------------
(* Calls of the real encoding, duration and timing functions, decided by     *)
(* Gen2Frames and LinkTiming.                                                *)
EXTENDS TraceLib, Gen2Frames
VARIABLES i, l
tvars == <<i, l>>
T == Traces[i]
Tol(v) == 3 + v \div 50000000
T_(n, got, want) == C(n, Near(got, want, Tol(want)))
Cl(x, b, what) == T_("C23." \o what, b, x)
Enc(e) ==
  {C("C23.encoding_of_" \o e.c.cmd, e.bits = Encode(e.c)),
   C("C23.command_length", e.len = Len(Encode(e.c)))}
RFrame(e) ==
  LET b == IF Has(e, "c") THEN Encode(e.c) ELSE e.b
      w == FrameTime(b, e.tari, e.rtcal, e.trcal, e.delim) IN
  {Cl(w, e.d[k].v, "reader_duration_" \o e.d[k].n) : k \in {k \in 1 .. Len(e.d) : e.d[k].k = "all"}}
  \cup {Cl(BodyTime(b, e.tari, e.rtcal), e.d[k].v, "reader_body") : k \in {k \in 1 .. Len(e.d) : e.d[k].k = "body"}}
  \cup {Cl(w - BodyTime(b, e.tari, e.rtcal), e.d[k].v, "reader_preamble") : k \in {k \in 1 .. Len(e.d) : e.d[k].k = "pre"}}
TFrame(e) ==
  LET p == ReplyBits(e.kind, e.bytes)  W(k) == CASE k = "all" -> TagBits(p, e.m, e.trext) [] k = "body" -> p
                                                [] OTHER -> TagPreamble(e.m, e.trext) IN
  {Cl(Pri(W(e.d[k].k) * e.m, e.trcal, e.dr), e.d[k].v, "tag_" \o e.d[k].n) : k \in {k \in 1 .. Len(e.d) : e.d[k].k \in {"all", "body", "pre"}}}
  \cup {C("C23.tag_bits_" \o e.d[k].n, e.d[k].v = (CASE e.d[k].k = "len" -> TagBits(p, e.m, e.trext)
          [] e.d[k].k = "plen" -> TagPreamble(e.m, e.trext) [] OTHER -> p)) : k \in {k \in 1 .. Len(e.d) : e.d[k].k \in {"len", "plen", "blen"}}}
Slot(e) == LET w == SlotTime(e.type, e.first, e.c, e.x) IN
  {C("C23.slot_" \o e.type, Near(e.v, w, 8 + 4 * Len(e.c.reads) + Tol(w)))}
Bytes(e) == {C("C23.byte_strings", e.ok)}
LinkC(e) ==
  {C("C24.tolerance", e.frt = 100 * FrT(e.trcal, e.dr, e.ext)),
   C("C24.period", Near(e.pri, Pri(100, e.trcal, e.dr), 2)),
   C("C24.frequency", Near(e.blf, Pri(100, e.trcal, e.dr), 2))}
  \cup UNION {{C("C24.T" \o ToString(e.t[k].k) \o (IF e.t[k].mx THEN "_max_" ELSE "_min_") \o e.t[k].n,
     LET w == IF e.t[k].mx THEN MaxT(e.t[k].k, e.rtcal, e.trcal, e.dr, e.ext) ELSE MinT(e.t[k].k, e.rtcal, e.trcal, e.dr, e.ext) IN
     IF w = NoMax THEN e.t[k].v = NoMax ELSE Near(e.t[k].v, w, 3))} : k \in 1 .. Len(e.t)}
  \cup {C("C24.seven_timings", e.lists = <<7, 7, 7>>), C("C24.no_other_index", e.rejects)}
\* the same parameters, the calibration symbols exactly at an end of a segment of the table
Edge(e) == {C("C24.segment_includes_its_lower_end", e.frt = 100 * FrT(e.trcal, e.dr, e.ext))}
Prep(e) ==
  LET n == 3 + e.x.chunks IN
  {C("C13.words_conserved", (IF e.x.chunks = 1 THEN e.w ELSE e.w * (e.x.chunks - 1) + e.last) = e.x.words),
   C("C13.equal_chunks", IF e.x.chunks = 1 THEN e.last = 0 ELSE e.w = e.x.words \div e.x.chunks),
   C("C13.one_probability_set_per_point", Len(e.lens) = e.points),
   C("C13.one_time_set_per_point", Len(e.times) = e.points),
   C("C13.three_states_and_chunks", \A k \in 1 .. Len(e.lens) : Len(e.lens[k]) = n),
   C("C13.three_times_and_chunks", \A k \in 1 .. Len(e.times) : Len(e.times[k]) = n),
   \* lens: the length whose survival probability the value is, in thousandths of a bit (-1: not comparable)
   C("C13.survival_probability", \A k \in 1 .. Len(e.lens) : \A s \in 1 .. Min(n, Len(e.lens[k])) :
       e.lens[k][s] \in {-1, 1000 * TagBits(StateBits(s, e.x), e.x.m, e.x.trext)}),
   C("C13.certain_or_impossible", e.ends),
   C("C13.state_times", \A k \in 1 .. Len(e.times) : \A s \in 1 .. Min(n, Len(e.times[k])) :
       Near(e.times[k][s], StateTime(s, e.x), 5)),
   C("C13.monotone", e.mono),
   C("C13.passed_on", e.dict)}
Clauses(e) ==
  CASE e.op = "enc" -> Enc(e) [] e.op = "rframe" -> RFrame(e) [] e.op = "tframe" -> TFrame(e)
    [] e.op = "slot" -> Slot(e) [] e.op = "bytes" -> Bytes(e) [] e.op = "link" -> LinkC(e)
    [] e.op = "edge" -> Edge(e) [] e.op = "prep" -> Prep(e) [] OTHER -> {C("unknown", FALSE)}
TraceInit == i \in 1 .. Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(T.ev)
             /\ Report(Clauses(T.ev[l]), i, l)
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
