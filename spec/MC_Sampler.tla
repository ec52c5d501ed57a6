----------------------------- MODULE MC_Sampler -----------------------------
(* Drawing source and target rows in turn from two bags that are refilled only *)
(* when empty: whatever is drawn, the epoch is balanced, whole and starves no  *)
(* row; a sampler that refills early is refuted.                               *)
EXTENDS DeepData
CONSTANTS MaxN, Early
VARIABLES D, b, pol, out, bag
vars == <<D, b, pol, out, bag>>
RowsOf(s) == {i \in DOMAIN D : Side(D[i]) = s}
Init == /\ \E n \in 2..MaxN : D \in [1..n -> {1, -1}]
        /\ Count(D, 1) > 0 /\ Count(D, 2) > 0
        /\ b \in 1..3 /\ pol \in {"max", "min", "source", "target"}
        /\ out = <<>> /\ bag = [s \in {1, 2} |-> {}]
Turn == IF Len(out) % 2 = 0 THEN 1 ELSE 2
Draw == /\ Len(out) < 2 * PerSide(D, b, pol)
        /\ LET s == Turn  left == IF bag[s] = {} \/ (Early /\ Cardinality(bag[s]) = 1) THEN RowsOf(s) ELSE bag[s] IN
             \E i \in left : out' = Append(out, i) /\ bag' = [bag EXCEPT ![s] = left \ {i}]
        /\ UNCHANGED <<D, b, pol>>
Spec == Init /\ [][Draw]_vars
Prefix == BalancedPrefix(out, D)
Done == Len(out) = 2 * PerSide(D, b, pol)
Whole_ == Done => Balanced(out, D, b, pol)
\* no row is seen two times more often than another of its side
Fair == \A s \in {1, 2} : \A i, j \in RowsOf(s) :
    Cardinality({k \in DOMAIN out : out[k] = i}) <= Cardinality({k \in DOMAIN out : out[k] = j}) + 1
\* every batch of 2b holds b of each side
Batches == \A k \in 0..(Len(out) \div (2 * b)) - 1 : \A s \in {1, 2} :
    Cardinality({i \in 2 * b * k + 1..2 * b * (k + 1) : Side(D[out[i]]) = s}) = b
\* the policies cover what they promise
Covers == (Done /\ pol = "max" /\ Count(D, 1) % b = 0 /\ Count(D, 2) % b = 0) => \A i \in DOMAIN D : \E k \in DOMAIN out : out[k] = i
=============================================================================
