---------------------------- MODULE MC_DeepLoss -----------------------------
(* Batches grown row by row on a small line: the discrepancy is symmetric,     *)
(* never negative, and zero exactly when the sides have the same shares;        *)
(* order never matters.  Loose: class masks cover columns only (a broken        *)
(* design: alike sides do not give zero).                                       *)
EXTENDS DeepLoss
CONSTANTS N, M, Vals, Loose
Rates == <<1, 2>>
P == 10
V3 == {-1, 1, 3}
V4 == {-2, -1, 1, 3}
VARIABLES X, Y
vars == <<X, Y>>
Init == X = <<>> /\ Y = <<>>
Add == \E v \in Vals : \/ Len(X) < N /\ X' = Append(X, v) /\ Y' = Y
                       \/ Len(Y) < M /\ Y' = Append(Y, v) /\ X' = X
Spec == Init /\ [][Add]_vars
Both == X # <<>> /\ Y # <<>>
Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
Alike == \A v \in Vals : Count(X, v) * Len(Y) = Count(Y, v) * Len(X)
Symmetric == Both => MmdN(X, Y, Rates, P) = MmdN(Y, X, Rates, P)
NotNegative == Both => MmdN(X, Y, Rates, P) >= 0
ZeroIffAlike == Both => (MmdN(X, Y, Rates, P) = 0 <=> Alike)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Orderless == Both => MmdN(Rev(X), Y, Rates, P) = MmdN(X, Rev(Y), Rates, P)
\* the discrepancy of one class of alike sides, labels by sign: masked on both sides, or on columns only
Lab(s) == [i \in DOMAIN s |-> Side(s[i])]
One(c) == LET A == OfClass(X, Lab(X), c)  B == OfClass(Y, Lab(Y), c)  n == Len(A)  m == Len(B) IN
    IF Loose THEN m * m * KerSum(X, A, Rates, P) + n * n * KerSum(Y, B, Rates, P) - 2 * n * m * KerSum(A, B, Rates, P)
    ELSE MmdN(A, B, Rates, P)
ClassZero == (Both /\ Alike) => \A c \in {0, 1} : OfClass(X, Lab(X), c) = <<>> \/ One(c) = 0
\* transport of equal sides costs nothing, and is symmetric
Jd(A, B) == Match([i \in DOMAIN A |-> [j \in DOMAIN B |-> (A[i] - B[j]) * (A[i] - B[j])]])
Transport == (Both /\ Len(X) = Len(Y)) => /\ (Jd(X, Y) = 0 <=> Alike) /\ Jd(X, Y) = Jd(Y, X)
=============================================================================
