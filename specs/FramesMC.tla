------------------------------ MODULE FramesMC ------------------------------
(* The messages of Gen2Frames can be told apart by what is on the air: the   *)
(* receiver's decoder recovers every command from its bits, and the link     *)
(* timings are ordered.                                                      *)
EXTENDS Gen2Frames, TLC
CONSTANTS Small, TrcalStep
VARIABLE x
Ms == {1, 2, 4, 8}
Sels == {"ALL", "~SL", "SL"}
Banks == {"Reserved", "EPC", "TID", "User"}
Words16 == IF Small THEN {0, 1, 21845, 32768, 65535} ELSE {0, 1, 2, 21845, 43690, 32768, 65534, 65535}
Qs == IF Small THEN {0, 1, 8, 15} ELSE 0 .. 15
Query == [cmd : {"Query"}, dr : {8, 64}, m : Ms, trext : BOOLEAN, sel : Sels, session : 0 .. 3, target : {"A", "B"},
          q : Qs, crc : {0, 21, 31}]
Rep == [cmd : {"QueryRep"}, session : 0 .. 3]
Adj == [cmd : {"QueryAdjust"}, session : 0 .. 3, updn : {-1, 0, 1}]
AckS == [cmd : {"Ack"}, rn : Words16]
ReqS == [cmd : {"ReqRN"}, rn : Words16, crc : Words16]
ReadS == [cmd : {"Read"}, bank : Banks, ptr : {0, 1, 127, 128, 129, 16383, 16384, 2097152}, count : {0, 1, 4, 255},
          rn : {0, 21845, 65535}, crc : {0, 65535}]
Links == [cmd : {"Link"}, trcal : {17200 + TrcalStep * k : k \in 0 .. (283000 \div TrcalStep)}, dr : {8, 64}, ext : BOOLEAN,
          rtcal : {15625, 31250, 75000}]
Init == x \in Query \cup Rep \cup Adj \cup AckS \cup ReqS \cup ReadS \cup Links
Spec == Init /\ [][FALSE]_x
RECURSIVE Val(_)
Val(b) == IF b = <<>> THEN 0 ELSE 2 * Val(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
RECURSIVE EbvLen(_)
EbvLen(b) == IF b[1] = 0 THEN 8 ELSE 8 + EbvLen(SubSeq(b, 9, Len(b)))
RECURSIVE EbvVal(_, _)
EbvVal(b, acc) == IF b = <<>> THEN acc ELSE EbvVal(SubSeq(b, 9, Len(b)), acc * 128 + Val(SubSeq(b, 2, 8)))
F(b, from, n) == Val(SubSeq(b, from, from + n - 1))
Decode(b) ==
  IF SubSeq(b, 1, 2) = <<0, 0>> THEN [cmd |-> "QueryRep", session |-> F(b, 3, 2)]
  ELSE IF SubSeq(b, 1, 2) = <<0, 1>> THEN [cmd |-> "Ack", rn |-> F(b, 3, 16)]
  ELSE IF SubSeq(b, 1, 4) = <<1, 0, 0, 0>> THEN
    [cmd |-> "Query", dr |-> (IF b[5] = 1 THEN 64 ELSE 8), m |-> 2 ^ F(b, 6, 2), trext |-> b[8] = 1,
     sel |-> (CASE F(b, 9, 2) = 0 -> "ALL" [] F(b, 9, 2) = 2 -> "~SL" [] OTHER -> "SL"), session |-> F(b, 11, 2),
     target |-> (IF b[13] = 1 THEN "B" ELSE "A"), q |-> F(b, 14, 4), crc |-> F(b, 18, 5)]
  ELSE IF SubSeq(b, 1, 4) = <<1, 0, 0, 1>> THEN
    [cmd |-> "QueryAdjust", session |-> F(b, 5, 2), updn |-> (CASE F(b, 7, 3) = 6 -> 1 [] F(b, 7, 3) = 0 -> 0 [] OTHER -> -1)]
  ELSE IF F(b, 1, 8) = 193 THEN [cmd |-> "ReqRN", rn |-> F(b, 9, 16), crc |-> F(b, 25, 16)]
  ELSE LET n == EbvLen(SubSeq(b, 11, Len(b))) IN
    [cmd |-> "Read", bank |-> (CASE F(b, 9, 2) = 0 -> "Reserved" [] F(b, 9, 2) = 1 -> "EPC" [] F(b, 9, 2) = 2 -> "TID" [] OTHER -> "User"),
     ptr |-> EbvVal(SubSeq(b, 11, 10 + n), 0), count |-> F(b, 11 + n, 8), rn |-> F(b, 19 + n, 16), crc |-> F(b, 35 + n, 16)]
DecodesBack == x.cmd # "Link" => Decode(Encode(x)) = x
Lengths == x.cmd # "Link" =>
  Len(Encode(x)) = (CASE x.cmd = "Query" -> 22 [] x.cmd = "QueryRep" -> 4 [] x.cmd = "QueryAdjust" -> 9
                     [] x.cmd = "Ack" -> 18 [] x.cmd = "ReqRN" -> 40
                     [] OTHER -> 50 + 8 * (IF x.ptr < 128 THEN 1 ELSE IF x.ptr < 16384 THEN 2 ELSE IF x.ptr < 2097152 THEN 3 ELSE 4))
TimesGrowWithOnes == x.cmd # "Link" =>
  LET t == CmdTime(x, 6250, 15625, 31250, 12500) IN t > 12500 + Len(Encode(x)) * 6250 /\ t < 70000 + Len(Encode(x)) * 9375
\* the tolerance of the table is one of the published ones, minima precede maxima, T2 leaves room after T1's spread
LinkOrdered == x.cmd = "Link" =>
  /\ FrT(x.trcal, x.dr, x.ext) \in {4, 5, 7, 10, 12, 15, 19, 22}
  /\ \A k \in 1 .. 7 : MaxT(k, x.rtcal, x.trcal, x.dr, x.ext) # NoMax =>
       MinT(k, x.rtcal, x.trcal, x.dr, x.ext) < MaxT(k, x.rtcal, x.trcal, x.dr, x.ext)
=============================================================================
