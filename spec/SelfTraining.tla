---------------------------- MODULE SelfTraining ----------------------------
(* The three self-training loops: progressive exchange (DASVM), gradual walk  *)
(* along a transport plan (GOAT) and joint transport/label alternation (JDOT).*)
EXTENDS Integers, Sequences, FiniteSets
Rng(s) == {s[i] : i \in 1..Len(s)}
Abs(v) == IF v < 0 THEN -v ELSE v
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
\* ------------------------------------------------------------ DASVM
(* Decisions are integers in units of 1/U; a point is in the margin when its  *)
(* decision lies strictly between -1 and 1 and is not 0.                       *)
U == 8
InMargin(v) == v # 0 /\ Abs(v) < U
Tops(S, d) == {i \in S : \A j \in S : d[j] <= d[i]}
Bottoms(S, d) == {i \in S : \A j \in S : d[j] >= d[i]}
\* one point of each class: the furthest on the positive and on the negative side
OncePicks(S, d) == {{i, j} : i \in Tops(S, d), j \in Bottoms(S, d)}
RECURSIVE Picks(_, _, _)
Picks(S, d, k) == IF k = 0 \/ S = {} THEN {{}}
                  ELSE UNION {{p \cup q : q \in Picks(S \ p, d, k - 1)} : p \in OncePicks(S, d)}
Flipped(add, old, new) == {i \in add : old[i] # new[i]}
MarginOf(T, add, d) == {i \in T \ add : InMargin(d[i])}
\* ------------------------------------------------------------ gradual walk
(* Row of step s of n between source row a and target row b, times n.          *)
Between(a, b, s, n) == [c \in 1..Len(a) |-> (n - s) * a[c] + s * b[c]]
RECURSIVE DotFrom(_, _, _)
DotFrom(w, x, c) == IF c > Len(w) THEN 0 ELSE w[c] * x[c] + DotFrom(w, x, c + 1)
\* the label a linear classifier gives to a row that was scaled by n
LabelOf(cl, row, n) == IF DotFrom(cl.w, row, 1) > cl.b * n THEN cl.hi ELSE cl.lo
NPairs(num, den, n, m) == Min2(Max2((num * (n + m)) \div den, 1), n * m)
TopPairs(P, rank, n, m) == \A p \in P, q \in ((1..n) \X (1..m)) \ P : rank[p[1]][p[2]] >= rank[q[1]][q[2]]
RowBest(rank, i, m) == {j \in 1..m : \A k \in 1..m : rank[i][k] <= rank[i][j]}
ColBest(rank, j, n) == {i \in 1..n : \A k \in 1..n : rank[k][j] <= rank[i][j]}
Covering(P, rank, n, m) ==
    /\ \A i \in 1..n : \E j \in RowBest(rank, i, m) : <<i, j>> \in P
    /\ \A j \in 1..m : \E i \in ColBest(rank, j, n) : <<i, j>> \in P
    /\ \A p \in P : p[2] \in RowBest(rank, p[1], m) \/ p[1] \in ColBest(rank, p[2], n)
\* ------------------------------------------------------------ joint OT
(* n source and n target points of mass 1/n: a plan is a permutation p,        *)
(* target j receives source p[j].  Costs are scaled by q * F, with alpha = p/q *)
(* and F the sum of the feature costs.                                        *)
SqDist(a, b) == LET d == [c \in 1..Len(a) |-> (a[c] - b[c]) * (a[c] - b[c])] IN SumOver(d, 1..Len(a))
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
FSum(Mf, n) == SumOver([x \in (1..n) \X (1..n) |-> Mf[x[1]][x[2]]], (1..n) \X (1..n))
Joint(Mf, Ml, al, n, first) ==
    LET F == FSum(Mf, n) IN
    [i \in 1..n |-> [j \in 1..n |-> (al.den - al.num) * n * n * Mf[i][j] + (IF first THEN 0 ELSE al.num * F * Ml[i][j])]]
PlanCost(M, p, n) == SumOver([j \in 1..n |-> M[p[j]][j]], 1..n)
Best(M, n) == LET C == {PlanCost(M, p, n) : p \in Perms(n)} IN CHOOSE c \in C : \A d \in C : c <= d
Optimal(M, p, n) == PlanCost(M, p, n) = Best(M, n)
\* stop when a loss settles: |a - b| / scale < tn / td
Settled(a, b, scale, tol) == Abs(a - b) * tol.den < tol.num * scale
=============================================================================
