----------------------------- MODULE Gen2Frames -----------------------------
(* Air-interface messages of EPC Gen2: the bits of every command, the length *)
(* of every reply, and the time both take.  Times in ns.                     *)
EXTENDS LinkTiming
RECURSIVE IBits(_, _)
IBits(v, n) == IF n = 0 THEN <<>> ELSE Append(IBits(v \div 2, n - 1), v % 2)
Bool(b) == <<IF b THEN 1 ELSE 0>>
(* extensible bit vector: blocks of 7 bits, all but the last marked with 1   *)
RECURSIVE EbvHead(_)
EbvHead(v) == IF v = 0 THEN <<>> ELSE EbvHead(v \div 128) \o <<1>> \o IBits(v % 128, 7)
Ebv(v) == EbvHead(v \div 128) \o <<0>> \o IBits(v % 128, 7)
MCode(m) == CASE m = 1 -> <<0, 0>> [] m = 2 -> <<0, 1>> [] m = 4 -> <<1, 0>> [] OTHER -> <<1, 1>>
SelCode(s) == CASE s = "ALL" -> <<0, 0>> [] s = "~SL" -> <<1, 0>> [] OTHER -> <<1, 1>>
UpDn(u) == CASE u = 1 -> <<1, 1, 0>> [] u = 0 -> <<0, 0, 0>> [] OTHER -> <<0, 1, 1>>
BankNo(b) == CASE b = "Reserved" -> 0 [] b = "EPC" -> 1 [] b = "TID" -> 2 [] OTHER -> 3
Code(c) == CASE c.cmd = "Query" -> <<1, 0, 0, 0>> [] c.cmd = "QueryRep" -> <<0, 0>>
             [] c.cmd = "QueryAdjust" -> <<1, 0, 0, 1>> [] c.cmd = "Ack" -> <<0, 1>>
             [] c.cmd = "ReqRN" -> <<1, 1, 0, 0, 0, 0, 0, 1>> [] OTHER -> <<1, 1, 0, 0, 0, 0, 1, 0>>
Fields(c) ==
  CASE c.cmd = "Query" -> Bool(c.dr = 64) \o MCode(c.m) \o Bool(c.trext) \o SelCode(c.sel) \o IBits(c.session, 2)
                          \o Bool(c.target = "B") \o IBits(c.q, 4) \o IBits(c.crc, 5)
    [] c.cmd = "QueryRep" -> IBits(c.session, 2)
    [] c.cmd = "QueryAdjust" -> IBits(c.session, 2) \o UpDn(c.updn)
    [] c.cmd = "Ack" -> IBits(c.rn, 16)
    [] c.cmd = "ReqRN" -> IBits(c.rn, 16) \o IBits(c.crc, 16)
    [] OTHER -> IBits(BankNo(c.bank), 2) \o Ebv(c.ptr) \o IBits(c.count, 8) \o IBits(c.rn, 16) \o IBits(c.crc, 16)
Encode(c) == Code(c) \o Fields(c)
(* reader frames                                                             *)
Ones(b) == Len(SelectSeq(b, LAMBDA x : x = 1))
BodyTime(b, tari, rtcal) == Bits(Len(b) - Ones(b), Ones(b), tari, rtcal)
\* a Query opens with the full preamble, every other command with a frame-sync
IsQuery(b) == Len(b) >= 4 /\ SubSeq(b, 1, 4) = <<1, 0, 0, 0>>
FrameTime(b, tari, rtcal, trcal, delim) ==
  BodyTime(b, tari, rtcal) + (IF IsQuery(b) THEN Full(tari, rtcal, trcal, delim) ELSE Sync(tari, rtcal, delim))
CmdTime(c, tari, rtcal, trcal, delim) == FrameTime(Encode(c), tari, rtcal, trcal, delim)
(* payload of the replies, in bits                                           *)
ReplyBits(kind, bytes) ==
  CASE kind = "rn16" -> 16 [] kind = "epc" -> 32 + 8 * bytes [] kind = "handle" -> 32 [] OTHER -> 33 + 8 * bytes
ReplyTime(kind, bytes, m, trext, trcal, dr) == TagTime(ReplyBits(kind, bytes), m, trext, trcal, dr)
(* a slot: what follows a command lasts at least T4                          *)
RECURSIVE AccessTime(_, _)
AccessTime(s, x) ==
  IF s = <<>> THEN 0
  ELSE CmdTime(Head(s), x.tari, x.rtcal, x.trcal, x.delim) + AccessTime(Tail(s), x)
     + MaxI(T1Min(x.rtcal, x.trcal, x.dr, x.ext) + ReplyTime("data", 2 * Head(s).count, x.m, x.trext, x.trcal, x.dr)
            + T2Min(x.trcal, x.dr), T4(x.rtcal))
SlotTime(type, first, c, x) ==   \* c: the three/four commands, x: link parameters
  LET q == CmdTime(IF first THEN c.query ELSE c.rep, x.tari, x.rtcal, x.trcal, x.delim)
      t1 == T1Min(x.rtcal, x.trcal, x.dr, x.ext)
      t2 == T2Min(x.trcal, x.dr)
      after(k, n) == MaxI(t1 + ReplyTime(k, n, x.m, x.trext, x.trcal, x.dr) + t2, T4(x.rtcal))
      inv == q + after("rn16", 0) + CmdTime(c.ack, x.tari, x.rtcal, x.trcal, x.delim) + after("epc", x.epc)
  IN CASE type = "EMPTY" -> q + MaxI(T1Max(x.rtcal, x.trcal, x.dr, x.ext) + T3, T4(x.rtcal))
       [] type = "COLLISION" -> q + after("rn16", 0)
       [] type = "INVENTORY" -> inv
       [] OTHER -> inv + AccessTime(c.reads, x)
(* the exchange whose states tag-time simulates: Query, ACK, ReqRN, Reads    *)
ExQuery(m, dr, trext) == [cmd |-> "Query", dr |-> dr, m |-> m, trext |-> trext, sel |-> "ALL", session |-> 0,
                          target |-> "A", q |-> 4, crc |-> 21]
ExAck == [cmd |-> "Ack", rn |-> 21845]
ExReqRN == [cmd |-> "ReqRN", rn |-> 21845, crc |-> 21845]
ExRead == [cmd |-> "Read", bank |-> "TID", ptr |-> 0, count |-> 4, rn |-> 21845, crc |-> 21845]
ChunkWords(words, chunks, k) ==
  IF chunks = 1 THEN words
  ELSE IF k < chunks THEN words \div chunks ELSE (words \div chunks) + (words % chunks)
StateBits(k, x) ==
  CASE k = 1 -> ReplyBits("rn16", 0) [] k = 2 -> ReplyBits("epc", 12) [] k = 3 -> ReplyBits("handle", 0)
    [] OTHER -> ReplyBits("data", 2 * ChunkWords(x.words, x.chunks, k - 3))
StateCmd(k, x) == CASE k = 1 -> ExQuery(x.m, x.dr, x.trext) [] k = 2 -> ExAck [] k = 3 -> ExReqRN [] OTHER -> ExRead
Guard == 20000
\* RTcal = 2.75 Tari, TRcal = 1.95 RTcal
ExRtcal(x) == (x.tari * 11) \div 4
ExTrcal(x) == (ExRtcal(x) * 39) \div 20
StateTime(k, x) ==
  T1Max(ExRtcal(x), ExTrcal(x), x.dr, FALSE) + T2Max(ExTrcal(x), x.dr)
    + CmdTime(StateCmd(k, x), x.tari, ExRtcal(x), ExTrcal(x), 12500)
    + TagTime(StateBits(k, x), x.m, x.trext, ExTrcal(x), x.dr) + Guard
=============================================================================
