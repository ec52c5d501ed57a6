------------------------------ MODULE Adapters ------------------------------
(* What every adapter owes its caller, whatever its numerics: rows keep their *)
(* places, source rows are refused at prediction, weights and labels belong   *)
(* to the right rows.  On one-dimensional integer data the matching-based     *)
(* adapters have exact combinatorial answers, which are computed here.        *)
EXTENDS Domains, TLC

Refused(D, allow) == ~allow /\ SrcPos(D) # <<>>

AbsI(x) == IF x < 0 THEN -x ELSE x
Close(a, b, tol) == AbsI(a - b) <= tol
CloseRow(a, b, tol) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Close(a[j], b[j], tol)
\* equal up to the sign of whole columns (eigenvectors have no sign)
CloseUpToSign(A, B, tol) ==
    /\ Len(A) = Len(B)
    /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i])
    /\ Len(A) > 0 => \A j \in 1..Len(A[1]) :
          \/ \A i \in 1..Len(A) : Close(A[i][j], B[i][j], tol)
          \/ \A i \in 1..Len(A) : Close(A[i][j], -B[i][j], tol)
CloseRows(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : CloseRow(A[i], B[i], tol)

(* sides stacked, processed, and put back                                    *)
Stacked(A, D) == SplitSrc(A, D) \o SplitTgt(A, D)
Unstacked(S, D) == Merge(SubSeq(S, 1, NSrc(D)), SubSeq(S, NSrc(D) + 1, Len(S)), D)
Permuted(A, p) == [i \in 1..Len(p) |-> A[p[i]]]

(* one-dimensional data: x distinct within each side                         *)
RankIn(x, D, i) == Cardinality({j \in 1..Len(x) : IsSrc(D[j]) = IsSrc(D[i]) /\ x[j] < x[i]})
\* optimal transport with a convex cost is the monotone matching; with nt = m*ns
\* each source mass splits over m targets, with ns = m*nt each target gathers m
MatchedSrc(x, D, t) == {s \in 1..Len(x) : /\ IsSrc(D[s])
                          /\ RankIn(x, D, s) \div (IF NSrc(D) > NTgt(D) THEN NSrc(D) \div NTgt(D) ELSE 1)
                             = RankIn(x, D, t) \div (IF NTgt(D) > NSrc(D) THEN NTgt(D) \div NSrc(D) ELSE 1)}
MatchedTgt(x, D, s) == {t \in 1..Len(x) : IsTgt(D[t]) /\ s \in MatchedSrc(x, D, t)}
SumOver(S, f(_)) == FoldSet(LAMBDA i, acc : acc + f(i), 0, S)
\* barycentric image of source row s is the mean of its targets
\* (cross-multiplied: count * image = sum)
MappedOK(x, D, out, s, scale, tol) ==
    LET T == MatchedTgt(x, D, s) IN
    Close(Cardinality(T) * out[s], SumOver(T, LAMBDA t : x[t] * scale), tol * Cardinality(T))
\* propagated real-valued label of target t is the mean over its sources
PropagatedOK(x, D, y, out, t, scale, tol) ==
    LET S == MatchedSrc(x, D, t) IN
    Close(Cardinality(S) * out[t], SumOver(S, LAMBDA s : y[s] * scale), tol * Cardinality(S))

\* nearest source of target t (x chosen without ties)
Nearest(x, D, t) == CHOOSE s \in 1..Len(x) : IsSrc(D[s]) /\
    \A r \in 1..Len(x) : IsSrc(D[r]) => AbsI(x[s] - x[t]) <= AbsI(x[r] - x[t])
NNWeight(x, D, s, lap) == IF ~IsSrc(D[s]) THEN 0
    ELSE lap + Cardinality({t \in 1..Len(x) : IsTgt(D[t]) /\ Nearest(x, D, t) = s})
=============================================================================
