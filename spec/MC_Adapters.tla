---------------------------- MODULE MC_Adapters ----------------------------
(* Every layout of N rows, every permutation of them, arbitrary per-side row  *)
(* maps: restacking is what keeps rows in place, and the exact answers are    *)
(* permutation-equivariant and attached to the right rows.                    *)
EXTENDS Adapters
CONSTANTS N, DomLabels
VARIABLES D, p, x, y, out, phase
Labs == {-1, 1}
Labs3 == {-2, -1, 1}
vars == <<D, p, x, y, out, phase>>
Perms == Permutations(1..N)
\* positions on the line, distinct and free of ties between nearest sources
Xs(q) == [i \in 1..N |-> (2^q[i]) * 3 + q[i]]
Init == /\ D \in [1..N -> DomLabels] /\ SrcPos(D) # <<>> /\ TgtPos(D) # <<>>
        /\ p \in Perms
        /\ \E q \in Perms : x = Xs(q)
        /\ y = [i \in 1..N |-> IF IsSrc(D[i]) THEN 10 * i ELSE -1]
        /\ out = <<>> /\ phase = "fit"
\* any map that treats the sides differently
Side(v, d) == IF IsSrc(d) THEN 1000 + v ELSE v
Apply == /\ phase = "fit" /\ phase' = "stacked"
         /\ out' = [k \in 1..N |-> LET pos == (SrcPos(D) \o TgtPos(D))[k] IN Side(x[pos], D[pos])]
         /\ UNCHANGED <<D, p, x, y>>
Restack == /\ phase = "stacked" /\ phase' = "done"
           /\ out' = Unstacked(out, D) /\ UNCHANGED <<D, p, x, y>>
Next == Apply \/ Restack
Spec == Init /\ [][Next]_vars
InPlace == phase = "done" => out = [i \in 1..N |-> Side(x[i], D[i])]
Equivariant == phase = "done" =>
    Permuted(out, p) = Unstacked(Stacked([i \in 1..N |-> Side(x[p[i]], D[p[i]])], Permuted(D, p)), Permuted(D, p))
\* weights and matches follow their rows
WeightsFollow == \A i \in 1..N :
    NNWeight(Permuted(x, p), Permuted(D, p), i, 0) = NNWeight(x, D, p[i], 0)
WeightsCount == SumOver(1..N, LAMBDA i : NNWeight(x, D, i, 0)) = NTgt(D)
Divisible == NSrc(D) % NTgt(D) = 0 \/ NTgt(D) % NSrc(D) = 0
MatchFollows == Divisible => \A t \in 1..N : IsTgt(D[p[t]]) =>
    {p[s] : s \in MatchedSrc(Permuted(x, p), Permuted(D, p), t)} = MatchedSrc(x, D, p[t])
MatchTotal == Divisible => \A t \in 1..N : IsTgt(D[t]) => MatchedSrc(x, D, t) # {}
=============================================================================
