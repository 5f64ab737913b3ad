----------------------------- MODULE SystemTrace -----------------------------
(* A whole run of the RFID model, one entry per event: reader, transaction, *)
(* what every tag heard and answered, power, statistics, arrivals and       *)
(* departures.  The reader and each tag follow Gen2Reader and Gen2Tag,      *)
(* times follow LinkTiming.                                                 *)
EXTENDS Gen2Reader, LinkTiming, TraceLib
G == INSTANCE Gen2Tag
VARIABLES i, l, s
tvars == <<i, l, s>>
T == Traces[i]
Cfg == [switch |-> T.switch = 1, rpt |-> T.rpt, target |-> T.target, tid |-> T.tid = 1, words |-> T.words, q |-> T.q]
NoTx == [none |-> TRUE]
Tol == 3

(* ---- tags ------------------------------------------------------------- *)
P == [k \in 1 .. 3 |-> T.p[k]]
FlStr(f) == [k \in 0 .. 3 |-> f[k + 1]]
NewT(b, tm) == [t |-> G!NewTag, rn |-> -1, birth |-> tm, epc |-> b.epc, tid |-> b.tid, n |-> b.n,
                rec |-> <<>>, rounds |-> 0, nadj |-> 0, pwt |-> -1]
\* may a number sent by the reader be the one the tag has sent last?
TagCmd(c, a, g) ==
  LET k == IF a.slot < 0 THEN 0 ELSE a.slot IN
  CASE c.op = "query" -> [op |-> "query", s |-> c.s, target |-> c.target, sel |-> c.sel \in {0, 2}, q |-> c.q,
                          m |-> c.m, ext |-> c.ext, k |-> k]
    [] c.op = "qrep" -> [op |-> "qrep", s |-> c.s]
    [] c.op = "qadj" -> [op |-> "qadj", s |-> c.s, u |-> c.u, k |-> k]
    [] OTHER -> [op |-> c.op, ok |-> g.rn # -1 /\ c.rn = g.rn]
SlotOK(o, a) == (G!InRound(o.t) => a.q1 = o.t.q)
                /\ (o.t.st = "REPLY" => a.slot = 0)
                /\ (o.t.st = "ARBITRATE" /\ o.t.slot > 0 => a.slot = o.t.slot)
FullOK(o, a) == o.t.st = a.st /\ o.reply = a.r /\ SlotOK(o, a) /\ o.t.fl = FlStr(a.fl)
BestOf(os, a) == LET x == {o \in os : FullOK(o, a)}
                     y == {o \in os : o.t.st = a.st /\ SlotOK(o, a)} IN
                 IF x # {} THEN CHOOSE o \in x : TRUE ELSE IF y # {} THEN CHOOSE o \in y : TRUE ELSE CHOOSE o \in os : TRUE
SyncT(o, a) == [o.t EXCEPT !.st = a.st, !.fl = FlStr(a.fl),
                 !.slot = IF a.st = "REPLY" THEN 0 ELSE IF a.st # "ARBITRATE" THEN @ ELSE IF FullOK(o, a) THEN o.t.slot ELSE a.slot,
                 !.q = IF a.st \in {"ARBITRATE", "REPLY"} THEN a.q1 ELSE @,
                 !.act = IF @ # G!NoSession \/ a.st \in {"OFF", "READY"} THEN @ ELSE T.s]
HearClauses(g, c, os, a) ==
  {C("C14.system_state", \E o \in os : o.t.st = a.st /\ SlotOK(o, a)),
   C("C14.system_reply", \E o \in os : o.t.st = a.st /\ o.reply = a.r),
   C("C15.system_flags", \E o \in os : o.t.fl = FlStr(a.fl)),
   C("C18.silent_without_power", g.t.st = "OFF" => a.r = "none" /\ a.st = "OFF"),
   C("C18.data_is_own", (a.r = "epc" => a.epc = g.epc) /\ (a.r = "data" => a.mem = SubSeq(g.tid, 1, 4 * T.words))),
   C("C20.tags_follow", c.op = "qadj" => \E o \in os : o.t.st = a.st /\ SlotOK(o, a)),
   C("C20.tag_counts", c.op = "qadj" =>
        a.adj = (IF G!InRound(g.t) /\ c.s = g.t.act /\ g.t.q + c.u \in 0 .. 15 THEN 1
                 ELSE IF G!InRound(g.t) /\ c.s = g.t.act THEN a.adj ELSE 0)),
   C("C20.tag_q_range", a.st \in {"ARBITRATE", "REPLY"} => a.q1 \in 0 .. 15)}
PowerClauses(on, g, os, a) ==
  {C("C22.tag_power", \E u \in os : u.st = a.st),
   C("C15.system_power_up", \E u \in os : u.fl = FlStr(a.fl)),
   C("C22.no_power_when_off", (a.none = 1) = ~on),
   C("C22.received_power", a.none = 0 /\ a.pls # <<>> => \E k \in 1 .. Len(a.pls) : Near(a.pw, T.ptx + T.budget + a.pls[k], 3)),
   C("C22.off_means_no_power", (a.st = "OFF") = (a.pon = 0))}
(* everything the tags did in this step, in order                           *)
RECURSIVE Fold(_, _, _)
Fold(tg, e, k) ==
  IF k > Len(e.acts) THEN [tg |-> tg, cs |-> {}]
  ELSE LET a == e.acts[k] IN
  IF a.id \notin DOMAIN tg
  THEN LET f == Fold(tg, e, k + 1) IN [f EXCEPT !.cs = @ \cup {C("C21.departed_do_nothing", FALSE)}]
  ELSE LET g == tg[a.id] IN
  IF a.k = "p"
  THEN LET os == G!SetPower(g.t, e.tm, P, a.cmp, 0)
           x == {u \in os : u.st = a.st /\ u.fl = FlStr(a.fl)}
           u == IF x # {} THEN CHOOSE v \in x : TRUE ELSE CHOOSE v \in os : TRUE
           t2 == [u EXCEPT !.st = a.st, !.fl = FlStr(a.fl)]
           f == Fold([tg EXCEPT ![a.id].t = t2, ![a.id].pwt = e.tm], e, k + 1) IN
       [f EXCEPT !.cs = @ \cup PowerClauses(e.on = 1, g, os, a)]
  ELSE IF e.new = 0
  THEN LET f == Fold(tg, e, k + 1) IN [f EXCEPT !.cs = @ \cup {C("C18.hears_only_transmissions", FALSE)}]
  ELSE LET os == G!Outcomes(g.t, TagCmd(e.tx.cmd, a, g))
           o == BestOf(os, a)
           joined == e.tx.cmd.op = "query" /\ a.st \in {"ARBITRATE", "REPLY"}
           g2 == [g EXCEPT !.t = SyncT(o, a), !.rn = IF a.r \in {"rn", "handle"} THEN a.rrn ELSE @,
                           !.rounds = @ + (IF joined THEN 1 ELSE 0), !.nadj = @ + a.adj]
           f == Fold([tg EXCEPT ![a.id] = g2], e, k + 1) IN
       [f EXCEPT !.cs = @ \cup HearClauses(g, e.tx.cmd, os, a) \cup {C("C18.hears_the_command", a.same = 1)}]

(* ---- one step --------------------------------------------------------- *)
WentOff(e) == s.on /\ e.on = 0
WentOn(e) == ~s.on /\ e.on = 1
Ended(e) == s.tx # NoTx /\ (e.new = 1 \/ e.ntx = 0)      \* the transaction is over
Finished(e) == Ended(e) /\ ~WentOff(e)
Present(e) == {x.id : x \in Range(e.tags)}
Heard(e) == {k \in 1 .. Len(e.acts) : e.acts[k].k = "h"}
Answers(e) == {k \in Heard(e) : e.acts[k].r # "none"}
Lone == s.tx # NoTx /\ Len(s.tx.replies) = 1
Born(e) == Range(e.born)
Gone(e) == DOMAIN s.tg \ Present(e)
(* tags before this step's actions: the newborn are there, departures later *)
Before(e) == LET b == Born(e) IN
  [id \in DOMAIN s.tg \cup {x.id : x \in b} |->
     IF id \in DOMAIN s.tg THEN s.tg[id] ELSE NewT(CHOOSE x \in b : x.id = id, e.tm)]

(* what the reader received is credited to the owner of the EPC             *)
Credit(tg, e) ==
  IF ~Finished(e) \/ e.rx = <<>> THEN tg
  ELSE LET x == e.rx[1] IN
  IF x.r = "epc" THEN [id \in DOMAIN tg |-> IF tg[id].epc = x.epc THEN [tg[id] EXCEPT !.rec = Append(@, <<s.rnd, 0>>)] ELSE tg[id]]
  ELSE IF x.r = "data" /\ s.ident \in DOMAIN tg /\ tg[s.ident].rec # <<>>
  THEN [tg EXCEPT ![s.ident].rec[Len(tg[s.ident].rec)][2] = 1]
  ELSE tg
Owner(tg, x) == IF \E id \in DOMAIN tg : tg[id].epc = x.epc THEN CHOOSE id \in DOMAIN tg : tg[id].epc = x.epc ELSE 0
(* the tag identified in the slot that goes on                              *)
Ident(tg, e) == IF (e.new = 1 /\ e.tx.cmd.op \in {"query", "qrep", "qadj"}) \/ e.on = 0 THEN 0
                ELSE IF Finished(e) /\ e.rx # <<>> /\ e.rx[1].r = "epc" THEN Owner(tg, e.rx[1]) ELSE s.ident

(* ---- the reader ------------------------------------------------------- *)
ROuts(e) ==
  IF WentOff(e) THEN {TurnOff(s.r, Cfg)}
  ELSE IF WentOn(e) THEN {TurnOn(s.r, Cfg)}
  ELSE IF Finished(e)
  THEN IF e.rx # <<>> THEN Reply(s.r, Cfg, e.rx[1].r, e.rx[1].rrn)
       ELSE IF e.new = 1 /\ e.tx.cmd.op = "qadj" /\ T.adj = 1 THEN {Adjust(s.r, e.tx.cmd.u)}
       ELSE Timeout(s.r, Cfg)
  ELSE {R(s.r, NoCmd, <<>>)}
RGood(o, e) == ~o.err /\ o.r.st = e.rst /\ o.cmd.op = (IF e.new = 1 THEN e.tx.cmd.op ELSE "none")
RBest(e) == LET os == ROuts(e) IN
  IF \E o \in os : RGood(o, e) THEN CHOOSE o \in os : RGood(o, e) ELSE CHOOSE o \in os : TRUE
Due == IF T.switch = 0 THEN T.target ELSE IF s.h.n = 0 THEN A ELSE IF s.h.n < T.rpt THEN s.h.last ELSE 1 - s.h.last
SeenQuery(e) == IF e.on = 0 THEN [n |-> 0, last |-> A]
                ELSE IF e.new = 0 \/ e.tx.cmd.op # "query" THEN s.h
                ELSE [n |-> IF s.h.n > 0 /\ e.tx.cmd.target = s.h.last THEN s.h.n + 1 ELSE 1, last |-> e.tx.cmd.target]
ReaderClauses(e) ==
  LET os == ROuts(e)  b == RBest(e) IN
  {C("C16.system_state", \E o \in os : o.r.st = e.rst),
   C("C16.system_command", \E o \in os : RGood(o, e))}
  \cup (IF e.new = 0 THEN {} ELSE LET c == e.tx.cmd IN
  {C("C16.system_addressed", c.op \in {"ack", "reqrn", "read"} => ~b.err /\ c.rn = b.r.rn),
   C("C16.system_parameters", CASE c.op = "query" -> c.q = e.q /\ c.dr = T.dr /\ c.m = T.m /\ c.ext = T.ext /\ c.sel = T.selc /\ c.s = T.s
                                [] c.op \in {"qrep", "qadj"} -> c.s = T.s
                                [] c.op = "read" -> c.bank = 2 /\ c.ptr = 0 /\ c.cnt = T.words
                                [] OTHER -> TRUE),
   C("C17.system_target", c.op = "query" => c.target = Due)})

(* ---- C18 -------------------------------------------------------------- *)
AirClauses(e, f) ==
  LET live == {id \in Present(e) : f.tg[id].t.st # "OFF"} IN
  (IF e.new = 0 THEN {} ELSE
  {C("C18.every_powered_tag_hears_once", \A id \in live : Cardinality({k \in Heard(e) : e.acts[k].id = id}) = 1),
   C("C18.nobody_else_hears_twice", \A id \in Present(e) : Cardinality({k \in Heard(e) : e.acts[k].id = id}) <= 1),
   C("C18.replies_are_the_answers",
      /\ Len(e.tx.replies) = Cardinality(Answers(e))
      /\ {<<x.id, x.r, x.rrn>> : x \in Range(e.tx.replies)} = {<<e.acts[k].id, e.acts[k].r, e.acts[k].rrn>> : k \in Answers(e)})})
  \cup
  {C("C18.at_most_one_reception", Len(e.rx) <= 1),
   C("C18.receives_only_lone_replies", e.rx # <<>> =>
      /\ Finished(e) /\ Lone
      /\ LET y == s.tx.replies[1] IN /\ e.rx[1].r = y.r /\ e.rx[1].rrn = y.rrn /\ e.rx[1].epc = y.epc /\ e.rx[1].mem = y.mem
                                     /\ y.id \in DOMAIN s.tg),
   C("C18.collision_advances_nobody", Finished(e) /\ Len(s.tx.replies) > 1 =>
      e.rx = <<>> /\ (e.new = 1 => e.tx.cmd.op \in {"query", "qrep", "qadj"})),
   C("C18.error_free_lone_reply_is_received",
      T.lossless = 1 /\ Finished(e) /\ Lone /\ s.tx.replies[1].id \in Present(e) => e.rx # <<>>),
   C("C18.memory_only_of_the_identified", Finished(e) /\ e.rx # <<>> /\ e.rx[1].r = "data" => Lone /\ s.tx.replies[1].id = s.ident)}
RecordClauses(e, tg) ==
  {C("C18.records", \A x \in Range(e.tags) : x.rec = tg[x.id].rec),
   C("C18.records_of_departed", \A x \in Range(e.left) : x.id \in DOMAIN tg => x.rec = tg[x.id].rec),
   C("C20.adjustments_counted", \A x \in Range(e.tags) \cup Range(e.left) : x.id \in DOMAIN tg => x.nadj = tg[x.id].nadj),
   C("C21.rounds_counted", \A x \in Range(e.tags) \cup Range(e.left) : x.id \in DOMAIN tg => x.rounds = tg[x.id].rounds)}

(* ---- C19 -------------------------------------------------------------- *)
TimeClauses(e) ==
  LET x == e.tx
      frame == (IF x.cmd.op = "query" THEN Full(T.tari, T.rtcal, T.trcal, T.delim) ELSE Sync(T.tari, T.rtcal, T.delim))
               + Bits(x.n0, x.n1, T.tari, T.rtcal)
      t1n == T1Min(T.rtcal, T.trcal, T.dr, T.temp = 1)
      t1x == T1Max(T.rtcal, T.trcal, T.dr, T.temp = 1)
      long == CHOOSE m \in {y.d : y \in Range(x.replies)} : \A y \in Range(x.replies) : y.d <= m IN
  {C("C19.full_preamble_with_query_only", (x.pre = 1) = (x.cmd.op = "query")),
   C("C19.command_duration", Near(x.cdur, frame, Tol) /\ Near(x.cend, x.start + frame, Tol)),
   C("C19.starts_now", Near(x.start, e.tm, Tol)),
   C("C19.finish", Near(x.fin, x.start + x.dur, Tol)),
   C("C19.never_below_command_and_t4", x.replies # <<>> => x.dur >= frame + T4(T.rtcal) - Tol),
   C("C19.reply_duration", \A y \in Range(x.replies) : Near(y.d, TagTime(y.n, T.m, T.ext = 1, T.trcal, T.dr), Tol)),
   C("C19.reply_interval", x.replies # <<>> => Near(x.rstart, x.cend + t1n, Tol) /\ Near(x.rdur, long, Tol)
                                               /\ Near(x.rend, x.rstart + long, Tol)),
   C("C19.duration", IF x.replies = <<>> THEN Near(x.dur, frame + t1x + T3, 2 * Tol)
                     ELSE Near(x.dur, Max(frame + t1n + long + T2Max(T.trcal, T.dr), frame + T4(T.rtcal)), 2 * Tol))}
FlowClauses(e) ==
  {C("C19.one_transaction_while_on", (e.on = 1) = (e.ntx # 0)),
   C("C19.next_command_when_due", Finished(e) => Near(e.tm, s.tx.fin, Tol)),
   C("C19.not_overdue", s.tx # NoTx /\ ~Ended(e) => e.tm <= s.tx.fin + Tol),
   C("C19.first_command_at_power_up", WentOn(e) => e.new = 1)}

(* ---- C20 -------------------------------------------------------------- *)
Tied(q, x) == Near(1000 * q, x, 502)                  \* q is a nearest integer of x/1000
Slotted == s.tx # NoTx /\ s.tx.cmd.op \in {"query", "qrep"}
Down == Max(0, s.qfp - T.delta)
Up == Min(15000, s.qfp + T.delta)
(* the estimates allowed after this step                                     *)
Estimates(e) ==
  IF T.adj = 0 \/ ~Finished(e) \/ ~Slotted \/ e.rx # <<>> THEN {s.qfp}
  ELSE IF Len(s.tx.replies) = 0 THEN IF s.q = 0 THEN {s.qfp, Down} ELSE {Down}
  ELSE IF Len(s.tx.replies) > 1 THEN IF s.q = 15 THEN {s.qfp, Up} ELSE {Up}
  ELSE {s.qfp, Down}                                  \* a lone reply that was lost
QClauses(e) ==
  LET op == IF e.new = 1 THEN e.tx.cmd.op ELSE "none"
      moved == T.adj = 1 /\ Finished(e) /\ Slotted /\ e.rx = <<>>
      near == {q \in {s.q - 1, s.q + 1} \cap (0 .. 15) : Tied(q, e.qfp)}
      clear == {q \in near : Near(1000 * q, e.qfp, 498)}      \* no tie
      stuck == e.qfp = s.qfp /\ (s.q = 0 \/ s.q = 15) IN
  {C("C20.range", e.q \in 0 .. 15 /\ e.qfp \in 0 .. 15000),
   C("C20.estimate", \E x \in Estimates(e) : Near(e.qfp, x, 1)),
   C("C20.off_means_constant", T.adj = 0 => e.q = s.q /\ op # "qadj"),
   C("C20.follows_rounding", moved =>
        \/ e.q \in near /\ op = "qadj" /\ e.tx.cmd.u = e.q - s.q
        \/ e.q = s.q /\ op # "qadj" /\ (clear = {} \/ stuck \/ (Lone /\ Near(e.qfp, s.qfp, 1)))),
   C("C20.only_after_slots", ~moved => e.q = s.q /\ op # "qadj"),
   C("C20.session", op = "qadj" => e.tx.cmd.s = T.s)}

(* ---- C21 -------------------------------------------------------------- *)
CanMake == s.made < T.gmax
LifeClauses(e, tg) ==
  LET made0 == s.made  nb == Cardinality(Born(e))
      gone == Gone(e) IN
  {C("C21.created_one_by_one", e.made = made0 + nb /\ nb <= 1),
   C("C21.creation_time", nb = 1 => Near(e.tm, s.next, Tol)),
   C("C21.creation_not_missed", CanMake /\ nb = 0 => e.tm <= s.next + Tol),
   C("C21.not_too_many", e.made <= T.gmax),
   C("C21.own_identity", \A x \in Born(e) : \A id \in DOMAIN s.tg : s.tg[id].n # x.n /\ s.tg[id].epc # x.epc /\ (T.tidbits > 16 => s.tg[id].tid # x.tid)),
   C("C21.identity_never_reused", \A x \in Born(e) : x.epc \notin s.used),
   C("C21.id_lengths", T.epcbits > 0 => \A x \in Born(e) : Len(x.epc) * 4 = T.epcbits /\ Len(x.tid) * 4 = T.tidbits),
   C("C21.departs_in_time", \A id \in gone : Near(e.tm, s.tg[id].birth + T.life, Tol)),
   C("C21.not_overdue", \A id \in Present(e) : id \in DOMAIN tg => e.tm <= tg[id].birth + T.life + Tol),
   C("C21.no_return", \A id \in Present(e) : id \in DOMAIN s.tg \/ \E x \in Born(e) : x.id = id),
   C("C21.counts", e.made = Cardinality(Present(e)) + e.gone /\ Len(e.tags) = Cardinality(Present(e))
                   /\ e.nh = e.gone /\ e.gone = s.gone + Cardinality(gone)),
   C("C21.one_record_each", {x.id : x \in Range(e.left)} = gone /\ Len(e.left) = Cardinality(gone)),
   C("C21.stops_with_the_last", s.gone < T.num)}
(* micrometres along axis k after d microseconds, without leaving 32 bits   *)
Way(k, d) == T.vm[k] * (d \div 1000) + (T.vm[k] * (d % 1000)) \div 1000 + (T.vu[k] * (d \div 1000)) \div 1000
MoveClauses(e, tg) ==
  {C("C21.position", \A x \in Range(e.tags) : \A k \in 1 .. 3 :
        Near(x.pos[k], T.p0[k] + Way(k, (x.upd - tg[x.id].birth) \div 1000), 50 + Max(T.vm[k], -T.vm[k]) \div 500)),
   C("C21.position_current", \A x \in Range(e.tags) : x.upd >= e.tm - T.upd - 50 /\ x.upd <= e.tm + Tol)}
EndClauses(e, all) ==
  IF ~Has(e, "end") THEN {}
  ELSE LET n == Len(all)  r == e.end
           found == Cardinality({k \in 1 .. n : all[k].rec # <<>>})
           tids == Cardinality({k \in 1 .. n : \E j \in 1 .. Len(all[k].rec) : all[k].rec[j][2] = 1})
           sum == SumSeq([k \in 1 .. n |-> all[k].rounds]) IN
  {C("C21.runs_to_the_end", r.full = 1 => e.gone = T.num),
   C("C21.inventory_probability", n > 0 => Near(r.ip, (1000000 * found) \div n, 1)),
   C("C21.read_probability", n > 0 => Near(r.tp, (1000000 * tids) \div n, 1)),
   C("C21.average_rounds", n > 0 => Near(r.ar, (sum \div n) * 100000 + ((sum % n) * 100000) \div n, 1)),
   C("C20.reported_adjustments", r.qs = [k \in 1 .. n |-> all[k].nadj])}

(* ---- C22 -------------------------------------------------------------- *)
AtUpdate(tm) == LET k == tm % T.upd IN k <= 50 \/ k >= T.upd - 50
PoweredNow(e) == {e.acts[k].id : k \in {j \in 1 .. Len(e.acts) : e.acts[j].k = "p"}}
PowerTime(e, tg) ==
  {C("C22.on_at_start", s.since < 0 => e.on = 1 /\ e.tm = 0),
   C("C22.on_duration", WentOff(e) => T.periodic = 1 /\ Near(e.tm, s.since + T.ton, Tol)),
   C("C22.off_duration", WentOn(e) /\ s.since >= 0 => T.periodic = 1 /\ Near(e.tm, s.since + T.toff, Tol)),
   C("C22.switches_in_time", T.periodic = 1 /\ s.since >= 0 =>
        (s.on /\ ~WentOff(e) => e.tm <= s.since + T.ton + Tol) /\ (~s.on /\ ~WentOn(e) => e.tm <= s.since + T.toff + Tol)),
   C("C22.off_is_silent", e.on = 0 => e.ntx = 0 /\ e.rnd = -1 /\ e.pw = 0 /\ Heard(e) = {} /\ e.rx = <<>>),
   C("C22.off_powers_nobody", e.on = 0 => \A x \in Range(e.tags) : x.st = "OFF" /\ x.pon = 0),
   C("C22.on_transmits_power", e.on = 1 => e.pw = 1),
   C("C22.tag_as_left", \A x \in Range(e.tags) : x.id \in DOMAIN tg => x.st = tg[x.id].t.st /\ (x.st = "OFF") = (x.pon = 0)),
   C("C22.power_current", \A x \in Range(e.tags) : x.id \in DOMAIN tg => tg[x.id].pwt >= e.tm - T.upd - 50),
   C("C22.power_at_switching", WentOn(e) => \A x \in Range(e.tags) : x.id \in PoweredNow(e)),
   C("C22.nothing_acts_later", PoweredNow(e) # {} =>
        \/ WentOn(e) \/ WentOff(e) \/ AtUpdate(e.tm)
        \/ \E x \in Born(e) : PoweredNow(e) = {x.id}
        \/ s.tx # NoTx /\ s.tx.rstart >= 0 /\ Near(e.tm, s.tx.rstart, Tol))}

Clauses(e, f, tg, all) ==
  f.cs \cup ReaderClauses(e) \cup AirClauses(e, f) \cup RecordClauses(e, tg) \cup FlowClauses(e) \cup QClauses(e)
  \cup (IF e.new = 1 THEN TimeClauses(e) ELSE {}) \cup LifeClauses(e, tg) \cup MoveClauses(e, tg) \cup EndClauses(e, all)
  \cup PowerTime(e, tg)
  \cup {C(p \o ".time_goes_on", e.tm >= s.tm) : p \in {"C19", "C21"}}
Strip(tg, ids) == [id \in ids |-> tg[id]]
TraceInit == /\ i \in 1 .. Len(Traces) /\ l = 1
             /\ s = [tm |-> 0, on |-> FALSE, since |-> -1, r |-> NewReader(Cfg), h |-> [n |-> 0, last |-> A], tx |-> NoTx,
                     tg |-> [id \in {} |-> 0], used |-> {}, made |-> 0, next |-> T.gap0, gone |-> 0, q |-> T.q, qfp |-> T.qfp, rnd |-> -1, ident |-> 0,
                     all |-> <<>>]
TraceNext ==
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == Fold(Before(e), e, 1)
         tg == Credit(f.tg, e)
         all == s.all \o [k \in 1 .. Len(e.left) |-> [rec |-> e.left[k].rec, rounds |-> e.left[k].rounds, nadj |-> e.left[k].nadj]]
         b == RBest(e) IN
     /\ Report(Clauses(e, f, tg, all), i, l)
     /\ s' = [tm |-> e.tm, on |-> e.on = 1, since |-> IF WentOn(e) \/ WentOff(e) THEN e.tm ELSE s.since,
              r |-> [b.r EXCEPT !.st = e.rst, !.q = e.q], h |-> SeenQuery(e),
              tx |-> IF e.ntx = 0 THEN NoTx ELSE IF e.new = 1 THEN e.tx ELSE s.tx,
              tg |-> Strip(tg, Present(e) \cap DOMAIN tg), used |-> s.used \cup {x.epc : x \in Born(e)},
              made |-> e.made, next |-> IF Born(e) # {} THEN e.tm + e.gap ELSE s.next, gone |-> e.gone, q |-> e.q, qfp |-> e.qfp, rnd |-> e.rnd, ident |-> Ident(tg, e), all |-> all]
  /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
