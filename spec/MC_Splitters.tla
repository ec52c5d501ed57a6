---------------------------- MODULE MC_Splitters ----------------------------
(* The machine behind the splitters: thin each domain, cut the test rows, cut *)
(* the train rows, side by side; any choice it can make gives an admissible   *)
(* fold, and no fold of leave-one-domain-out can touch the held-out domain.   *)
EXTENDS Splitters
CONSTANTS MaxN, Labels
VARIABLES kind, D, ts, tr, us, held, pool, train, test, phase
vars == <<kind, D, ts, tr, us, held, pool, train, test, phase>>
Labs == {-2, -1, 1, 2}
LabsT == {-2, -1, 1, 2, 3}
N0 == [k |-> "none", num |-> 0, den |-> 1]
Sizes == {N0, [k |-> "int", num |-> 1, den |-> 1], [k |-> "int", num |-> 2, den |-> 1],
          [k |-> "frac", num |-> 1, den |-> 2], [k |-> "frac", num |-> 1, den |-> 4]}
Shares == {Full, [num |-> 1, den |-> 2]}
Sub(S, m) == {T \in SUBSET S : Cardinality(T) = m}
RECURSIVE AnySeq(_)
AnySeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AnySeq(S \ {x})
Fold == [train |-> AnySeq(train), test |-> AnySeq(test)]
Init == /\ kind \in {"shuffle", "lodo"}
        /\ \E n \in 2..MaxN : D \in [1..n -> Labels]
        /\ ts \in Sizes /\ tr \in Sizes
        /\ us \in (IF kind = "shuffle" THEN Shares ELSE {Full})
        /\ held \in (IF kind = "lodo" THEN {d \in Domains(D) : d > 0 /\ -d \in Domains(D)} ELSE {0})
        /\ (kind = "shuffle" => ShuffleOK(D, ts, tr, us)) /\ (kind = "lodo" => LodoOK(D, held, ts, tr))
        /\ pool = {} /\ train = {} /\ test = {} /\ phase = "thin"
Thin == /\ phase = "thin" /\ phase' = "test"
        /\ \E keep \in SUBSET (IF kind = "lodo" THEN LodoRows(D, held) ELSE 1..Len(D)) :
             /\ kind = "lodo" => keep = LodoRows(D, held)
             /\ kind = "shuffle" => \A d \in Domains(D) : Cardinality(keep \cap RowsOf(D, d)) = Kept(D, us, d)
             /\ pool' = keep
        /\ UNCHANGED <<kind, D, ts, tr, us, held, train, test>>
CutTest == /\ phase = "test" /\ phase' = "train"
           /\ \E a \in Sub(pool \cap Src(D), NTest(Cardinality(pool \cap Src(D)), ts, tr)) :
              \E b \in Sub(pool \cap Tgt(D), NTest(Cardinality(pool \cap Tgt(D)), ts, tr)) : test' = a \cup b
           /\ UNCHANGED <<kind, D, ts, tr, us, held, pool, train>>
CutTrain == /\ phase = "train" /\ phase' = "done"
            /\ \E a \in Sub((pool \ test) \cap Src(D), NTrain(Cardinality(pool \cap Src(D)), ts, tr)) :
               \E b \in Sub((pool \ test) \cap Tgt(D), NTrain(Cardinality(pool \cap Tgt(D)), ts, tr)) : train' = a \cup b
            /\ UNCHANGED <<kind, D, ts, tr, us, held, pool, test>>
Next == Thin \/ CutTest \/ CutTrain
Spec == Init /\ [][Next]_vars
Admissible == phase = "done" =>
    \A c \in (IF kind = "shuffle" THEN ShuffleFold(Fold, D, ts, tr, us) ELSE LodoFold(Fold, D, ts, tr)) : c[2]
HeldOut == (phase = "done" /\ kind = "lodo") => /\ Held(Fold, D) = {held}
                                                /\ \A i \in train \cup test : D[i] # held
NeverStuck == (phase = "test" \/ phase = "train") => ENABLED Next
=============================================================================
