----------------------------- MODULE MC_Scorers -----------------------------
(* (1) Circular validation as a machine: predict targets, swap roles, refit,  *)
(* predict sources, score; over every layout, prediction and rule to negate   *)
(* domains.  (2) Facts about the score formulas on every small input.         *)
EXTENDS Scorers, TLC
CONSTANTS MaxN, ZeroRule     \* ZeroRule: "fresh" (the code) or "negate" (domain 0 stays source)
Doms == {-2, -1, 0, 1}
Classes == {3, 7}
VARIABLES D, pred, phase, B, lab, back, scored
vars == <<D, pred, phase, B, lab, back, scored>>
Init == /\ \E n \in 2..MaxN : D \in {d \in [1..n -> Doms] : SrcRows(d) # {} /\ TgtRows(d) # {}}
        /\ pred \in [1..Len(D) -> Classes]
        /\ phase = "predicted" /\ B = <<>> /\ lab = <<>> /\ back = <<>> /\ scored = <<>>
MaxAbs == MaxOf([i \in 1..Len(D) |-> AbsV(D[i])])
TgtPred == [i \in 1..Len(Asc(TgtRows(D))) |-> pred[Asc(TgtRows(D))[i]]]
Constant == Cardinality(Rng(TgtPred)) = 1
Code(c) == Cardinality({x \in Rng(TgtPred) : x < c})
Swap == /\ phase = "predicted" /\ ~Constant /\ phase' = "swapped"
        /\ B' = [i \in 1..Len(D) |-> IF D[i] = 0 /\ ZeroRule = "fresh" THEN -MaxAbs - 1 ELSE -D[i]]
        /\ lab' = [i \in 1..Len(D) |-> IF IsSrc(D[i]) THEN -1 ELSE Code(pred[i])]
        /\ UNCHANGED <<D, pred, back, scored>>
Shortcut == /\ phase = "predicted" /\ Constant /\ phase' = "done"
            /\ scored' = [i \in 1..Len(D) |-> IF IsSrc(D[i]) THEN pred[CHOOSE j \in TgtRows(D) : TRUE] ELSE 0]
            /\ UNCHANGED <<D, pred, B, lab, back>>
\* the backward estimator may answer any label it was trained with
Back == /\ phase = "swapped" /\ phase' = "answered"
        /\ back' \in [SrcRows(D) -> {lab[i] : i \in {j \in 1..Len(B) : IsSrc(B[j]) /\ lab[j] # -1}}]
        /\ UNCHANGED <<D, pred, B, lab, scored>>
Score == /\ phase = "answered" /\ phase' = "done"
         /\ scored' = [i \in 1..Len(D) |-> IF IsSrc(D[i]) THEN (CHOOSE c \in Rng(TgtPred) : Code(c) = back[i]) ELSE 0]
         /\ UNCHANGED <<D, pred, B, lab, back>>
Next == Swap \/ Shortcut \/ Back \/ Score
Spec == Init /\ [][Next]_vars
RolesSwapped == phase \in {"swapped", "answered"} => Swapped(D, B)
LabelsRenamed == phase = "swapped" => Renaming(TgtPred, [i \in 1..Len(TgtPred) |-> lab[Asc(TgtRows(D))[i]]])
ScoredInOriginalLabels == phase = "done" => \A i \in SrcRows(D) : scored[i] \in Rng(TgtPred)
NeverStuck == phase # "done" => ENABLED Next
\* ---- formulas
ASSUME \A k \in 0..10 : Log2(Pow(2, k), 1) = 4096 * k /\ Log2(1, Pow(2, k)) = -4096 * k
ASSUME \A a \in 1..60 : Log2(a, 7) < Log2(a + 1, 7)
ASSUME \A a, b \in 1..12 : Near(Log2(a * b, 1), Log2(a, 1) + Log2(b, 1), 8)
\* a constant loss is returned unchanged whatever the weights (control variate), if they vary
ASSUME \A n \in 2..4 : \A r \in [1..n -> 1..4] : \A c \in {1, 5} : \A ab \in {<<1, 1>>, <<2, 1>>, <<1, 3>>} :
         LET d == DevNum(r, [i \in 1..n |-> c], ab[1], ab[2]) IN
         Cardinality(Rng(r)) > 1 => d.num = c * d.den
\* more concentrated neighbourhoods have a lower density score
ASSUME SndSum(<<0, 0, 1, 1>>) < SndSum(<<0, 1, 2, 3>>)
ASSUME Rng(TaylorRow(<<0, 1, 3>>)) \subseteq 0..4096
=============================================================================
