---------------------------- MODULE MC_Subspaces ----------------------------
(* Turning a direction step by step while the spread along it grows ends at the  *)
(* best direction of all.  OneWay: the broken design turns only one way.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Top, OneWay
VARIABLES m, at
vars == <<m, at>>
D == <<<<1, 0>>, <<2, 1>>, <<1, 1>>, <<1, 2>>, <<0, 1>>, <<-1, 2>>, <<-1, 1>>, <<-2, 1>>>>
N == Len(D)
Num(k) == m[1] * D[k][1] * D[k][1] + 2 * m[2] * D[k][1] * D[k][2] + m[3] * D[k][2] * D[k][2]
Len2(k) == D[k][1] * D[k][1] + D[k][2] * D[k][2]
Better(j, k) == Num(j) * Len2(k) > Num(k) * Len2(j)
Next1(k) == (k % N) + 1
Prev1(k) == IF k = 1 THEN N ELSE k - 1
Init == m \in {<<a, b, c>> : a \in 0..Top, b \in -Top..Top, c \in 0..Top} /\ m[2] * m[2] <= m[1] * m[3] /\ at \in 1..N
Turn == /\ \E j \in (IF OneWay THEN {Next1(at)} ELSE {Next1(at), Prev1(at)}) : Better(j, at) /\ at' = j
        /\ UNCHANGED m
Spec == Init /\ [][Turn]_vars /\ WF_vars(Turn)
Stuck == ~\E j \in (IF OneWay THEN {Next1(at)} ELSE {Next1(at), Prev1(at)}) : Better(j, at)
BestOfAll == Stuck => \A j \in 1..N : ~Better(j, at)
Grows == [][Better(at', at)]_vars
Ends == <>[]Stuck
\* spread along two perpendicular directions adds up to the whole
WholeIsKept == \A k \in 1..4 : Num(k) + Num(k + 4) = (m[1] + m[3]) * Len2(k)
=============================================================================
