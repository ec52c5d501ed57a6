-------------------------------- MODULE QP ----------------------------------
(* Convex quadratic problems over small integers:                              *)
(*   min 1/2 x'Qx + c'x,  A x <= b,  E x = e,  lb <= x <= ub.                   *)
(* Points are sequences of integers in units of 1/S.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(v) == IF v < 0 THEN -v ELSE v
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Dot(a, x) == Sum([i \in DOMAIN a |-> a[i] * x[i]])
Abs1(a) == Sum([i \in DOMAIN a |-> Abs(a[i])])
MatVec(Q, x) == [i \in DOMAIN Q |-> Dot(Q[i], x)]
\* twice the objective, times S*S
F2(Q, c, x, S) == Dot(x, MatVec(Q, x)) + 2 * S * Dot(c, x)
\* the gradient times S
Grad(Q, c, x, S) == LET g == MatVec(Q, x) IN [i \in DOMAIN Q |-> g[i] + S * c[i]]
\* how far 2*S*S*objective may be off when every coordinate is rounded to 1/S
Blur(Q, c, x, S) == Abs1(Grad(Q, c, x, S)) + Sum([i \in DOMAIN Q |-> Abs1(Q[i])])
\* p: [A, b, E, e, lb, ub]; an absent bound is <<>>.  t is a slack in units of 1/S, per unit of the row
Inside(p, x, S, t) ==
    /\ \A i \in DOMAIN p.lb : x[i] >= S * p.lb[i] - t
    /\ \A i \in DOMAIN p.ub : x[i] <= S * p.ub[i] + t
    /\ \A r \in DOMAIN p.A : Dot(p.A[r], x) <= S * p.b[r] + t * Max2(1, Abs1(p.A[r]))
    /\ \A r \in DOMAIN p.E : Abs(Dot(p.E[r], x) - S * p.e[r]) <= t * Max2(1, Abs1(p.E[r]))
Grid(d, lo, hi) == [1..d -> lo..hi]
\* least value of a row over the bounds, where they limit it
Low(p, a) == \A i \in DOMAIN a : a[i] = 0 \/ (a[i] > 0 /\ p.lb # <<>>) \/ (a[i] < 0 /\ p.ub # <<>>)
RowMin(p, a) == Sum([i \in DOMAIN a |-> IF a[i] = 0 THEN 0 ELSE a[i] * (IF a[i] > 0 THEN p.lb[i] ELSE p.ub[i])])
Neg(a) == [i \in DOMAIN a |-> -a[i]]
TooMuch(p, a, b) == Low(p, a) /\ RowMin(p, a) > b     \* a x <= b cannot hold
Hopeless(p) ==
    \/ p.lb # <<>> /\ p.ub # <<>> /\ \E i \in DOMAIN p.lb : p.lb[i] > p.ub[i]
    \/ \E r \in DOMAIN p.A : TooMuch(p, p.A[r], p.b[r])
    \/ \E r \in DOMAIN p.E : TooMuch(p, p.E[r], p.e[r]) \/ TooMuch(p, Neg(p.E[r]), -p.e[r])
    \/ \E r, q \in DOMAIN p.A : p.A[r] = Neg(p.A[q]) /\ p.b[r] < -p.b[q]
\* value v (in 1/V) of the objective at x is no more than Slack (in 2*S*S units) above that of z
NoWorse(Q, c, v, V, z, S, slack) == ((2 * S * S) \div V) * v <= F2(Q, c, z, S) + slack
\* ---------------------------------------------------------------- Frank-Wolfe
\* a row w of positive integers with lo <= w x <= hi, and bounds (upper bounds may be absent)
Reach(w, hi, lb, ub, i) ==       \* what coordinate i can move by
    LET r == (hi - Dot(w, lb)) \div w[i] + 1 IN IF ub = <<>> THEN r ELSE Min2(r, ub[i] - lb[i])
\* curvature constant: largest change of slope times the squared diameter
Curv(Q, w, hi, lb, ub) == Sum([i \in DOMAIN Q |-> Q[i][i]]) * Sum([i \in DOMAIN w |-> Reach(w, hi, lb, ub, i) * Reach(w, hi, lb, ub, i)])
Corners(w, lo, hi, lb, ub) ==    \* every feasible integer point
    LET top == [i \in DOMAIN w |-> lb[i] + Reach(w, hi, lb, ub, i)]
        m == CHOOSE v \in {lb[i] : i \in DOMAIN w} : \A i \in DOMAIN w : lb[i] >= v
        M == CHOOSE v \in {top[i] : i \in DOMAIN w} : \A i \in DOMAIN w : top[i] <= v IN
    {z \in [DOMAIN w -> m..M] : /\ \A i \in DOMAIN w : lb[i] <= z[i] /\ z[i] <= top[i]
                                /\ lo <= Dot(w, z) /\ Dot(w, z) <= hi}
\* corners least in the direction of slope g
Best(cs, g) == {z \in cs : \A y \in cs : Dot(g, z) <= Dot(g, y)}
=============================================================================
