----------------------------- MODULE MC_Ratios ------------------------------
(* Source and target samples arrive one by one on few cells.  Weighting every   *)
(* source sample by (share of its cell among targets) / (share among sources)   *)
(* reproduces every target average over the source's cells; on finer cells by   *)
(* counting nearest targets as well.  Upside: the broken design that divides     *)
(* the other way round.                                                         *)
EXTENDS Ratios
CONSTANTS Cells, Max, Upside
VARIABLES s, t, w
vars == <<s, t, w>>
Count(q, c) == Cardinality({i \in DOMAIN q : q[i] = c})
\* weights times Len(t) * 5!, kept for every cell
Weight(q, r, c) == IF Count(q, c) = 0 THEN 0 ELSE IF Upside THEN (120 * Count(q, c) * Len(r)) \div (IF Count(r, c) = 0 THEN 1 ELSE Count(r, c)) ELSE (120 \div Count(q, c)) * Count(r, c) * Len(q)
Init == s = <<>> /\ t = <<>> /\ w = [c \in Cells |-> 0]
Source(c) == /\ Len(s) < Max /\ s' = Append(s, c) /\ UNCHANGED t /\ w' = [d \in Cells |-> Weight(s', t, d)]
Target(c) == /\ Len(t) < Max /\ t' = Append(t, c) /\ UNCHANGED s /\ w' = [d \in Cells |-> Weight(s, t', d)]
ASource == \E c \in Cells : Source(c)
ATarget == \E c \in Cells : Target(c)
Next == ASource \/ ATarget
Spec == Init /\ [][Next]_vars
Covered == t # <<>> /\ s # <<>> /\ \A i \in DOMAIN t : Count(s, t[i]) > 0
\* sum_i w(s_i) [s_i = c] / Len(s) = share of c among targets
Reproduces == Covered => \A c \in Cells : Count(s, c) * w[c] = 120 * Len(s) * Count(t, c)
MeanOne == Covered => Sum([i \in DOMAIN s |-> w[s[i]]]) = 120 * Len(s) * Len(t)
\* nearest neighbour counts: every target is counted exactly once when there are no ties
Rows(q) == [i \in DOMAIN q |-> <<q[i]>>]
Counted == s # <<>> => /\ Sum([i \in DOMAIN s |-> Sole(Rows(s), Rows(t), i)]) <= Len(t)
                       /\ Sum([i \in DOMAIN s |-> May(Rows(s), Rows(t), i)]) >= Len(t)
LnLaws == \A a, b \in {1, 2, 3, 7, 10, 250, 7777} : Abs(Ln(a, b) + Ln(b, a)) <= 8 /\ (a > b => Ln(a, b) > 0) /\ Abs(Ln(10, 1) - 23026) <= 6 /\ Abs(Ln(3, 7) + 8473) <= 6
=============================================================================
