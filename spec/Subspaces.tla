----------------------------- MODULE Subspaces ------------------------------
(* Projections of integer rows.  Scatter is n * sum of squares minus square of   *)
(* the sum.                                                                     *)
EXTENDS Ratios
Dot(a, b) == Sum([i \in DOMAIN a |-> a[i] * b[i]])
Along(S, u) == [i \in DOMAIN S |-> Dot(S[i], u)]
Spread(v) == Len(v) * Sum([i \in DOMAIN v |-> v[i] * v[i]]) - Sum(v) * Sum(v)
Cross(v, w) == Len(v) * Sum([i \in DOMAIN v |-> v[i] * w[i]]) - Sum(v) * Sum(w)
Col(Z, c) == [i \in DOMAIN Z |-> Z[i][c]]
Lattice(d) == IF d = 1 THEN {<<1>>} ELSE IF d = 2 THEN {<<a, b>> : a \in -3..3, b \in 0..3} \ {<<0, 0>>}
              ELSE {<<a, b, c>> : a \in -1..1, b \in -1..1, c \in 0..1} \ {<<0, 0, 0>>}
\* sum of squared steps between class means and the mean, and within classes, of projected rows; times n * product of class sizes is avoided: both in 1/100
Classes(y) == {y[i] : i \in DOMAIN y}
Part(v, y, c) == LET k == SelectSeq([i \in DOMAIN v |-> i], LAMBDA i : y[i] = c) IN [j \in DOMAIN k |-> v[k[j]]]
RECURSIVE SumSet(_, _, _)
\* sum over classes of Spread(part) * 100 / size of part
SumSet(v, y, C) == IF C = {} THEN 0 ELSE LET c == CHOOSE c \in C : TRUE  p == Part(v, y, c) IN (100 * Spread(p)) \div Len(p) + SumSet(v, y, C \ {c})
Within100(v, y) == SumSet(v, y, Classes(y))
Total100(v) == (100 * Spread(v)) \div Len(v)
=============================================================================
