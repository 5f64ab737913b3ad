----------------------------- MODULE LinkTiming -----------------------------
(* Link timing of the Gen2 standard.  Times in ns unless noted; the divide   *)
(* ratio is 8 or 64 (for 64/3); frequency tolerance in percent.              *)
EXTENDS Integers, Sequences
DrNum(dr) == IF dr = 8 THEN 1 ELSE 3
DrDen(dr) == IF dr = 8 THEN 8 ELSE 64
\* <<TRcal below (ns), percent>>
FrTTable(dr, extended) ==
  IF dr = 64
  THEN IF extended
       THEN <<<<33633, 15>>, <<66033, 22>>, <<82467, 15>>, <<84133, 10>>, <<131967, 12>>, <<198000, 7>>, <<227250, 5>>>>
       ELSE <<<<33633, 15>>, <<66033, 22>>, <<67367, 10>>, <<82467, 12>>, <<131967, 10>>, <<198000, 7>>, <<227250, 5>>>>
  ELSE IF extended
       THEN <<<<24750, 19>>, <<30938, 15>>, <<49500, 10>>, <<75000, 7>>, <<202000, 4>>>>
       ELSE <<<<24750, 19>>, <<25250, 10>>, <<30938, 12>>, <<49500, 10>>, <<75000, 7>>, <<202000, 4>>>>
RECURSIVE Lookup(_, _, _)
Lookup(tab, x, k) == IF k = Len(tab) THEN tab[k][2] ELSE IF x < tab[k][1] THEN tab[k][2] ELSE Lookup(tab, x, k + 1)
FrT(trcal, dr, extended) == Lookup(FrTTable(dr, extended), trcal, 1)
MaxI(a, b) == IF a >= b THEN a ELSE b
(* k periods of the backscatter link frequency                               *)
Pri(k, trcal, dr) == LET x == trcal * DrNum(dr)  d == DrDen(dr) IN
  k * (x \div d) + (k * (x % d)) \div d
\* max(RTcal, 10 Tpri) * (100 + f) percent
Base(rtcal, trcal, dr, pct) ==
  MaxI((rtcal * pct) \div 100, (10 * trcal * DrNum(dr) * pct) \div (DrDen(dr) * 100))
T1Min(rtcal, trcal, dr, ext) == Base(rtcal, trcal, dr, 100 - FrT(trcal, dr, ext)) - 2000
T1Max(rtcal, trcal, dr, ext) == Base(rtcal, trcal, dr, 100 + FrT(trcal, dr, ext)) + 2000
T2Min(trcal, dr) == Pri(3, trcal, dr)
T2Max(trcal, dr) == Pri(20, trcal, dr)
T3 == 0
T4(rtcal) == 2 * rtcal
T7Min(trcal, dr) == MaxI(T2Max(trcal, dr), 250000)
TMaxLate == 20000000            \* T5, T6, T7 at most 20 ms
MinT(k, rtcal, trcal, dr, ext) ==
  CASE k \in {1, 5, 6} -> T1Min(rtcal, trcal, dr, ext)
    [] k = 2 -> T2Min(trcal, dr) [] k = 3 -> T3 [] k = 4 -> T4(rtcal) [] OTHER -> T7Min(trcal, dr)
NoMax == -1                     \* unbounded
MaxT(k, rtcal, trcal, dr, ext) ==
  CASE k = 1 -> T1Max(rtcal, trcal, dr, ext)
    [] k = 2 -> T2Max(trcal, dr) [] k \in {3, 4} -> NoMax [] OTHER -> TMaxLate
(* reader frames: preamble or frame-sync, then bits                          *)
Sync(tari, rtcal, delim) == delim + tari + rtcal
Full(tari, rtcal, trcal, delim) == Sync(tari, rtcal, delim) + trcal
Bits(n0, n1, tari, rtcal) == n0 * tari + n1 * (rtcal - tari)
(* tag frames: (preamble + payload + 1) bits of m symbols, in ns             *)
TagPreamble(m, trext) == IF m = 1 THEN (IF trext THEN 18 ELSE 6) ELSE (IF trext THEN 22 ELSE 10)
TagBits(n, m, trext) == TagPreamble(m, trext) + n + 1
TagTime(n, m, trext, trcal, dr) == Pri(TagBits(n, m, trext) * m, trcal, dr)
=============================================================================
