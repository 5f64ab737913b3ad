---------------------------- MODULE ChannelTrace ----------------------------
(* Recorded calls and runs of the radio channel against Channel.             *)
EXTENDS TraceLib
Ch == INSTANCE Channel
VARIABLES i, l
tvars == <<i, l>>
T == Traces[i]
Num(x) == x # -999999999 /\ x # 999999999
(* one exact scene: the complex field, its power computed in three ways      *)
Ray(e) ==
  LET f == Ch!Field(e.c) p == Ch!Power(f) IN
  {C("C28.harness_scene", Ch!Lengths(e.c)),
   C("C28.two_rays", Near(e.re, f[1], 12) /\ Near(e.im, f[2], 12)),
   C("C28.power_of_the_field", Near(e.pw, p, 60) /\ Near(e.pwlog, p, 60)),
   (* the wall is asked at the angle of the mirrored ray, be it given from the wall or from its normal *)
   C("C28.angle_at_the_wall", \A k \in {Abs(x) : x \in Range(e.angle)} : LET s == e.c.a[1] + e.c.b[1] IN
       \/ Near(k * e.c.d1, s * 1000000, 3 * e.c.d1)
       \/ LET x == k \div 100 y == (s * 10000) \div e.c.d1 IN Near(x * x, 100000000 - y * y, 50000))}
Dip(e) == {C("C28.antenna_pattern", e.x \in Ch!DipolePoints /\ Near(e.v, Ch!Dipole(e.x), 40))}
Fresnel(e) == LET r == Ch!Reflection(e.f) IN
  {C("C28.reflection", Near(e.re, r[1], 12) /\ Near(e.im, r[2], 12)), C("C28.constant_reflection", e.const)}
BerAt(e) == {C("C28.ber_values", e.x \in Ch!SnrPoints /\ Near(e.v, IF e.distr = "rayleigh" THEN Ch!BerRayleigh(e.x) ELSE Ch!BerAwgn(e.x), 2))}
(* far out, the error rate of a fading channel falls as fast as the SNR grows *)
FarOut(e) == {C("C28.ber_falls_as_the_snr_grows", Near(e.v, e.w, e.v \div 10 + 1) /\ e.v > 0)}
(* values at growing SNR, in billionths                                      *)
BerSeq(e) == {C("C28.ber_never_grows_with_the_snr", \A k \in 1 .. Len(e.v) - 1 : e.v[k + 1] <= e.v[k] + 1),
              C("C28.ber_is_a_probability", \A k \in 1 .. Len(e.v) : e.v[k] \in 0 .. 500000000)}
(* SNR of powers that differ by whole decades, as thousandths of a decade    *)
Snr(e) == {C("C28.snr_is_the_ratio", Near(e.v, 100 * e.db, 1))}
(* effective SNR: m bits, x = SNR * symbol * bandwidth, q quarters of it kept *)
Full(e) == {C("C28.snr_per_symbol", Near(4 * e.v, e.m * e.x * e.q, 8))}
Dead(e) == {C("C28.no_signal_no_snr", e.v = 0), C("C28.no_signal_half_the_bits", e.ber = 500000)}
(* all in millionths of a decibel                                            *)
Gains(e) == e.gr + e.gt + e.lr + e.lt
Link(e) ==
  {C("C28.nothing_received_without_power", e.off = (~Has(e, "prx")))}
  \cup (IF ~Has(e, "prx") THEN {} ELSE
   {C("C28.forward_budget", Near(e.prx, e.ptx + e.fpl + Gains(e), 20)),
    C("C28.forward_loss_is_the_two_ray_loss", Near(e.fpl, e.dfpl + e.pol, 40)),
    C("C28.no_doppler_no_time", e.doppler \/ e.fpl = e.later),
    C("C28.tag_hears_nothing_when_off", e.tagoff => e.rnone)}
   \cup (IF e.tagoff THEN {} ELSE
    {C("C28.modulation_loss", Near(e.ttx, e.tp + e.mod, 4)),
     C("C28.backward_budget", Near(e.rrx, e.ttx + e.bpl + Gains(e), 20)),
     C("C28.backward_loss_is_the_two_ray_loss", Near(e.bpl, e.dbpl + e.pol, 40)),
     C("C28.same_both_ways", e.const => Near(e.fpl, e.bpl, 40)),
     C("C28.effective_snr", e.strong => e.snr - e.snr0 \in -100000 .. 1000),
     C("C28.ber_of_the_distribution", e.ber = e.dber)}))
(* what the statistics kept of one update                                    *)
Rec(e) ==
  {C("C28.record_lifetime", Near(e.life, e.want, 2000)), C("C28.record_position", e.pos),
   C("C28.record_reader_power", Near(e.ptx, e.max, 4)), C("C28.record_of_silence", e.off = e.dead),
   C("C28.record_forward_loss", IF e.dfpl = -999999999 THEN e.max # -120000000 \/ e.fpl = -120000000 ELSE Near(e.fpl, e.dfpl + e.pol, 40))}
  \cup (IF e.off THEN {C("C28.record_backward_loss", e.bpl = -120000000),
              C("C28.record_of_silence", e.rrx = -120000000 /\ e.snr = -999999999 /\ e.ber = 500000000 /\ e.ttx = -120000000)}
        ELSE {C("C28.record_backward_loss", e.dbpl = -999999999 \/ Near(e.bpl, e.dbpl + e.pol, 40)),
              C("C28.record_modulation", Near(e.ttx, e.trx + e.mod, 4)),
              C("C28.record_budget", Near(e.rrx, e.ttx + e.bpl + Gains(e), 20)),
              C("C28.record_ber", e.ber = e.dber)})
Clauses(e) == CASE e.op = "ray" -> Ray(e) [] e.op = "dipole" -> Dip(e) [] e.op = "fresnel" -> Fresnel(e) [] e.op = "berat" -> BerAt(e)
                [] e.op = "tail" -> FarOut(e) [] e.op = "berseq" -> BerSeq(e) [] e.op = "snr" -> Snr(e) [] e.op = "full" -> Full(e) [] e.op = "dead" -> Dead(e)
                [] e.op = "link" -> Link(e) [] e.op = "rec" -> Rec(e)
                [] OTHER -> {C("C28.known_event", FALSE)}
TraceInit == i \in 1 .. Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(T.ev)
             /\ Report(Clauses(T.ev[l]), i, l)
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
