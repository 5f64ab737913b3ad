------------------------------ MODULE ReportMC ------------------------------
(* Commands reported one after another in one working folder: each shows its *)
(* rows and, when asked, saves a file named after the second of saving.      *)
EXTENDS Reports, TLC, Json
CONSTANTS Lists, MaxSec, MaxAsked, Emit
MCLists == {<<>>} \cup UNION {[1 .. n -> 1 .. 3] : n \in 2 .. 3}
FewLists == {<<>>, <<1, 2>>, <<2, 1, 2>>}
VARIABLES now, folder, files, asked, shown
vars == <<now, folder, files, asked, shown>>
Init == now = 1 /\ folder = FALSE /\ files = <<>> /\ asked = <<>> /\ shown = <<>>
Request(v, sets, save) ==
  LET n == Len(asked) + 1
      m == IF v = <<>> THEN 1 ELSE IF sets THEN Len(v) ELSE Cardinality(Rng(v)) IN
  [sets |-> sets, vals |-> v, params |-> n, save |-> save, sec |-> now, res |-> [k \in 1 .. m |-> <<"result", n, k>>]]
With(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Process(v, sets, save) ==
  LET r == Request(v, sets, save) IN
  /\ Len(asked) < MaxAsked /\ asked' = Append(asked, r)
  /\ shown' = (IF v = <<>> THEN << <<0, r.res[1]>> >> ELSE Rows(r))
  /\ folder' = (folder \/ save)
  /\ files' = (IF save THEN With(files, now, FileOf(r)) ELSE files)
  /\ UNCHANGED now
Second == now < MaxSec /\ now' = now + 1 /\ UNCHANGED <<folder, files, asked, shown>>
Next == Second \/ \E v \in Lists, sets \in BOOLEAN, save \in BOOLEAN : Process(v, sets, save)
Spec == Init /\ [][Next]_vars
LastOne == asked[Len(asked)]
\* one row per result; values neither lost nor invented, each once, in ascending order
RowsRight == asked # <<>> => LET r == LastOne IN
  /\ Len(shown) = Len(r.res)
  /\ \A k \in 1 .. Len(shown) : shown[k][2] = r.res[k]
  /\ r.vals # <<>> => {shown[k][1] : k \in 1 .. Len(shown)} = Rng(r.vals)
  /\ ~r.sets /\ r.vals # <<>> => \A k \in 1 .. Len(shown) - 1 : shown[k][1] < shown[k + 1][1]
\* what was saved stays as it was obtained, unless something was saved in the same second afterwards
Kept == \A k \in 1 .. Len(asked) :
  (asked[k].save /\ \A h \in k + 1 .. Len(asked) : asked[h].save => asked[h].sec # asked[k].sec)
  => asked[k].sec \in DOMAIN files /\ files[asked[k].sec] = FileOf(asked[k])
NothingElse == DOMAIN files = {asked[k].sec : k \in {h \in 1 .. Len(asked) : asked[h].save}}
Housed == files # <<>> => folder
EmitHistory == Emit /\ Len(asked) = MaxAsked /\ now = MaxSec =>
  PrintT(ToJson([asked |-> [k \in 1 .. Len(asked) |-> [vals |-> asked[k].vals, sets |-> asked[k].sets, save |-> asked[k].save, sec |-> asked[k].sec]]]))
=============================================================================
