------------------------------- MODULE PoolMC -------------------------------
(* The pool of Parallel with W workers over every command line of a small    *)
(* alphabet; res keeps the results by position, done the order of finishing. *)
EXTENDS Parallel, TLC, Json
CONSTANTS Vals, MostVals, Workers, Emit
VARIABLES given, jobs, next, run, res, done, w
vars == <<given, jobs, next, run, res, done, w>>
Lists == UNION {[1 .. n -> Vals] : n \in 1 .. MostVals}
F(job) == <<"result of", job>>
Init == /\ w \in Workers
        /\ given \in (IF Emit THEN {[a |-> [k \in 1 .. MostVals |-> k], b |-> <<1>>]} ELSE [a : Lists, b : Lists])
        /\ jobs = Jobs(FALSE, given) /\ next = 1 /\ run = {} /\ done = <<>>
        /\ res = [k \in 1 .. Len(jobs) |-> <<"none">>]
Take == next <= Len(jobs) /\ Cardinality(run) < w /\ run' = run \cup {next} /\ next' = next + 1 /\ UNCHANGED <<given, jobs, res, done, w>>
Finish(k) == /\ k \in run /\ run' = run \ {k} /\ done' = Append(done, k)
             /\ res' = [res EXCEPT ![k] = F(jobs[k])] /\ UNCHANGED <<given, jobs, next, w>>
Next == Take \/ \E k \in run : Finish(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == Len(done) = Len(jobs)
EachOnce == \A j, h \in 1 .. Len(done) : j # h => done[j] # done[h]
OwnResult == \A k \in 1 .. Len(jobs) : res[k] \in {<<"none">>, F(jobs[k])}
Delivered == Finished => \A k \in 1 .. Len(jobs) : res[k] = F(jobs[k])
Bounded == Cardinality(run) <= w
\* only the varied parameter differs, it takes exactly the given values, in ascending order
OneVaries == ~Rejected(FALSE, given) => \A n \in {"a", "b"} :
   /\ {jobs[k][n] : k \in 1 .. Len(jobs)} = Rng(given[n])
   /\ \A k \in 1 .. Len(jobs) - 1 : jobs[k][n] <= jobs[k + 1][n]
Distinct == \A j, h \in 1 .. Len(jobs) : j # h => jobs[j] # jobs[h]
NothingWhenRejected == Rejected(FALSE, given) => jobs = <<>>
Ends == <>Finished
EmitOrder == Emit /\ Finished => PrintT(ToJson([order |-> done, w |-> w]))
=============================================================================
