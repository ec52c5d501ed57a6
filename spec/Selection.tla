----------------------------- MODULE Selection ------------------------------
(* Choosing among candidates by fitting each of them on the training rows of   *)
(* every fold and scoring it on the other rows.                                 *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE v \in S : TRUE IN f[x] + SumSet(f, S \ {x})
Total(S) == SumSet([i \in S |-> i], S)
Abs(v) == IF v < 0 THEN -v ELSE v
IsSrc(d) == d >= 0
\* D: domain of each row, y: label given (-1 masked), hide: target labels are masked
Known(D, y, hide, i) == y[i] # -1 /\ (IsSrc(D[i]) \/ ~hide)
\* rows that train the estimator which answers row r, when rows tr are given
FitSet(sel, D, y, hide, tr, r) ==
    {i \in tr : Known(D, y, hide, i) /\ CASE sel = "shared" -> TRUE
                                        [] sel = "source" -> IsSrc(D[i])
                                        [] sel = "target" -> ~IsSrc(D[i])
                                        [] sel = "st" -> IsSrc(D[i]) = IsSrc(D[r])
                                        [] OTHER -> D[i] = D[r]}
FitSets(sel, D, y, hide, tr) == {FitSet(sel, D, y, hide, tr, r) : r \in tr}
\* the candidate's answers depend on the row, its parameter and what it was trained on
Level(cell, bias, S, r) == cell[r] + bias + Total(S)
=============================================================================
