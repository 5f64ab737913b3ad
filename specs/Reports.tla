------------------------------ MODULE Reports ------------------------------
(* What is made of the results of a command: the rows shown (one per value   *)
(* run, in the order of the results), the means, and the file kept for it.   *)
(* A request r has: sets (parameter sets run in the order given, as in the   *)
(* tag-time model, or values of one parameter run in ascending order), vals  *)
(* (the values given, <<>> for a single run), params (all other parameters)  *)
(* and res (the results obtained, one per value run).                        *)
EXTENDS Parallel
Listed(r) == IF r.sets THEN r.vals ELSE Asc(Rng(r.vals))
Rows(r) == [k \in 1 .. Len(r.res) |-> <<Listed(r)[k], r.res[k]>>]
FileOf(r) == [params |-> r.params, vals |-> Listed(r), res |-> r.res]
\* mean time of a transmission: the whole time over their number
MeanOf(whole, n) == whole \div n
=============================================================================
