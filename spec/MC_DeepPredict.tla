--------------------------- MODULE MC_DeepPredict ---------------------------
(* Answering batch by batch: the rows to answer are cut into batches of any    *)
(* size, each row is answered from itself alone, the answers are stacked.      *)
EXTENDS DeepData
CONSTANTS MaxN
VARIABLES D, allow, b, todo, out
vars == <<D, allow, b, todo, out>>
Init == /\ \E n \in 0..MaxN : D \in [1..n -> {0, 1, -1, -2}]
        /\ allow \in BOOLEAN /\ b \in 1..3 /\ todo = Answered(D, allow) /\ out = <<>>
Min(p, q) == IF p < q THEN p ELSE q
Batch == /\ todo # <<>>
         /\ LET k == Min(b, Len(todo)) IN /\ out' = out \o SubSeq(todo, 1, k)
                                          /\ todo' = SubSeq(todo, k + 1, Len(todo))
         /\ UNCHANGED <<D, allow, b>>
Spec == Init /\ [][Batch]_vars
InOrder == \A i, j \in DOMAIN out : i < j => out[i] < out[j]
OnlyAllowed == \A i \in DOMAIN out : allow \/ D[out[i]] < 0
Complete == todo = <<>> => \A r \in DOMAIN D : (allow \/ D[r] < 0) <=> r \in Rng(out)
=============================================================================
