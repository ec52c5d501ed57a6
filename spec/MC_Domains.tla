---------------------------- MODULE MC_Domains ----------------------------
(* All sample_domain vectors up to MaxN rows over Labels.  The state is a     *)
(* table (D, an array A of distinct values, and what became of it); actions   *)
(* are the helpers.                                                           *)
EXTENDS Domains, TLC, Json, IOUtils
CONSTANTS MaxN, Labels, NAN
Labels4 == {-2, -1, 0, 1}
Labels5 == {-2, -1, 0, 1, 3}
Nan == -9999999
VARIABLES D, A, parts, out, pc
vars == <<D, A, parts, out, pc>>

Vectors == UNION {[1..n -> Labels] : n \in 1..MaxN}
Init == /\ D \in Vectors
        /\ A = [i \in 1..Len(D) |-> <<10 + i>>]
        /\ parts = <<>> /\ out = <<>> /\ pc = "given"
Split == /\ pc = "given" /\ pc' = "split"
         /\ parts' = <<SplitSrc(A, D), SplitTgt(A, D)>>
         /\ UNCHANGED <<D, A, out>>
PerDomain == /\ pc = "given" /\ pc' = "perdomain"
             /\ parts' = [d \in Domains(D) |-> SplitDom(A, D, d)]
             /\ UNCHANGED <<D, A, out>>
Remerge == /\ pc = "split" /\ pc' = "merged"
           /\ out' = Merge(parts[1], parts[2], D)
           /\ UNCHANGED <<D, A, parts>>
FillSrc == /\ pc = "split" /\ pc' = "filledS" /\ Len(parts[2]) > 0
           /\ out' = MergePair([sgiven |-> FALSE, tgiven |-> TRUE, s |-> <<>>,
                                 t |-> parts[2], kind |-> "discrete"], D, NAN)
           /\ UNCHANGED <<D, A, parts>>
FillTgt == /\ pc = "split" /\ pc' = "filledT" /\ Len(parts[1]) > 0
           /\ out' = MergePair([sgiven |-> TRUE, tgiven |-> FALSE, s |-> parts[1],
                                 t |-> <<>>, kind |-> "continuous"], D, NAN)
           /\ UNCHANGED <<D, A, parts>>
Next == Split \/ PerDomain \/ Remerge \/ FillSrc \/ FillTgt
Spec == Init /\ [][Next]_vars

RoundTrip == pc = "merged" => out = A
NothingLost == pc = "split" =>
    /\ Len(parts[1]) + Len(parts[2]) = Len(D)
    /\ Rng(parts[1]) \cup Rng(parts[2]) = Rng(A)
Partition == pc = "perdomain" =>
    /\ UNION {Rng(parts[d]) : d \in DOMAIN parts} = Rng(A)
    /\ \A d, e \in DOMAIN parts : d # e => Rng(parts[d]) \cap Rng(parts[e]) = {}
    /\ \A d \in DOMAIN parts : \A i \in 1..Len(D) : A[i] \in Rng(parts[d]) <=> D[i] = d
FillExact == /\ pc = "filledS" => \A i \in 1..Len(D) : out[i] = IF IsSrc(D[i]) THEN <<-1>> ELSE A[i]
             /\ pc = "filledT" => \A i \in 1..Len(D) : out[i] = IF IsTgt(D[i]) THEN <<NAN>> ELSE A[i]
ValidateSane == \A f \in [source : BOOLEAN, target : BOOLEAN, msource : BOOLEAN,
                          mtarget : BOOLEAN, common : BOOLEAN] :
    \* loosening a switch never refuses more
    \A g \in {[f EXCEPT !.source = TRUE], [f EXCEPT !.mtarget = TRUE], [f EXCEPT !.common = TRUE]} :
        Violated(D, g) \subseteq Violated(D, f)
DeriveSane == LET m == [i \in 1..Len(D) |-> IsTgt(D[i])] IN
    /\ SrcPos(DeriveXY(m)) = SrcPos(D)
    /\ SrcPos(DeriveX(Len(D))) = <<>>
\* the scenarios replayed into the code
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[D |-> v] : v \in Vectors}))
============================================================================
