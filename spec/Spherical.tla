----------------------------- MODULE Spherical ------------------------------
(* Clustering by angle: rows and centres are integer vectors.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Dot(a, b) == Sum([i \in DOMAIN a |-> a[i] * b[i]])
Abs1(a) == Sum([i \in DOMAIN a |-> Abs(a[i])])
Zero(d) == [i \in 1..d |-> 0]
Plus(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
RECURSIVE Total(_, _)
Total(rows, d) == IF rows = <<>> THEN Zero(d) ELSE Plus(Head(rows), Total(Tail(rows), d))
\* members of cluster k in row order
Members(X, lab, k) == LET idx == SelectSeq([i \in DOMAIN X |-> i], LAMBDA i : lab[i] = k) IN [j \in DOMAIN idx |-> X[idx[j]]]
\* cos(x, a) > cos(x, b), exactly; a zero vector is at a right angle to everything
Signed(v) == IF v < 0 THEN -(v * v) ELSE v * v
Norm2(a) == LET n == Dot(a, a) IN IF n = 0 THEN 1 ELSE n
Closer(x, a, b) == Signed(Dot(x, a)) * Norm2(b) > Signed(Dot(x, b)) * Norm2(a)
\* first of the nearest centres
Nearest(x, C) == CHOOSE k \in DOMAIN C : /\ \A j \in DOMAIN C : ~Closer(x, C[j], C[k])
                                         /\ \A j \in 1..k - 1 : Closer(x, C[k], C[j])
Assign(X, C) == [i \in DOMAIN X |-> Nearest(X[i], C)]
Centres(X, lab, K, d) == [k \in 1..K |-> Total(Members(X, lab, k), d)]
=============================================================================
