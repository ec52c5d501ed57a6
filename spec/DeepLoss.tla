----------------------------- MODULE DeepLoss -------------------------------
(* Losses between a source and a target batch, where their values are rational *)
(* (up to a factor ln 2).  X, Y are sequences of integer rows.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Min(S) == CHOOSE v \in S : \A u \in S : v <= u
\* ---------------------------------------------------------------- correlation alignment
\* covariance times n (n - 1); raw: second moments about zero times n (n - 1)
CovN(X, i, j, raw) == LET n == Len(X) IN
    IF raw THEN n * Sum([k \in 1..n |-> X[k][i] * X[k][j]])
    ELSE n * Sum([k \in 1..n |-> X[k][i] * X[k][j]]) - Sum([k \in 1..n |-> X[k][i]]) * Sum([k \in 1..n |-> X[k][j]])
NN(X) == Len(X) * (Len(X) - 1)
\* the loss times 4 d d (NN(X) NN(Y))^2
CoralN(X, Y, raw) == LET d == Len(X[1]) IN
    Sum([i \in 1..d |-> Sum([j \in 1..d |-> LET v == CovN(X, i, j, raw) * NN(Y) - CovN(Y, i, j, raw) * NN(X) IN v * v])])
\* ---------------------------------------------------------------- kernels 2^(-rate * distance) on a line
Ker(a, b, rates, P) == Sum([r \in DOMAIN rates |-> Pow2(P - rates[r] * Abs(a - b))])
KerSum(X, Y, rates, P) == Sum([i \in DOMAIN X |-> Sum([j \in DOMAIN Y |-> Ker(X[i], Y[j], rates, P)])])
\* discrepancy times (n m)^2 2^P
MmdN(X, Y, rates, P) == LET n == Len(X)  m == Len(Y) IN
    m * m * KerSum(X, X, rates, P) + n * n * KerSum(Y, Y, rates, P) - 2 * n * m * KerSum(X, Y, rates, P)
OfClass(X, lab, c) == LET idx == SelectSeq([i \in DOMAIN X |-> i], LAMBDA i : lab[i] = c) IN [j \in DOMAIN idx |-> X[idx[j]]]
\* contrastive discrepancy of two classes on a line clustered by sign (cluster 0: positive), times U = lcm of (n m)^2, times 2^P;
\* target classes of fewer than least rows are left out
Side(x) == IF x > 0 THEN 0 ELSE 1
CddN(X, lab, Y, rates, P, least, U) ==
    LET A(c) == OfClass(X, lab, c)
        B(c) == LET l == [i \in DOMAIN Y |-> Side(Y[i])] IN OfClass(Y, l, c)
        ok(c) == Len(B(c)) >= least
        \* e1 + e2 - 2 e3 for source class c and target class k
        D(c, k) == IF ~(ok(c) /\ ok(k)) THEN 0 ELSE
            LET n == Len(A(c))  m == Len(B(k)) IN (U \div (n * n * m * m)) * MmdN(A(c), B(k), rates, P) IN
    D(0, 0) + D(1, 1) - D(0, 1) - D(1, 0)      \* halves: 2 classes, 2 ordered pairs
\* ---------------------------------------------------------------- joint transport
\* cost[i][j]; the least total over one-to-one matchings
Match(cost) == Min({Sum([i \in DOMAIN cost |-> cost[i][f[i]]]) : f \in Perms(Len(cost))})
\* rows repeated as often as they weigh
RECURSIVE Expand(_)
Expand(w) == IF w = <<>> THEN <<>> ELSE LET r == Expand(SubSeq(w, 1, Len(w) - 1)) IN r \o [k \in 1..w[Len(w)] |-> Len(w)]
JdotN(X, y, Y, pred, rd, rc, ws, wt) ==
    LET a == Expand(ws)  b == Expand(wt)
        sq(u, v) == Sum([k \in DOMAIN u |-> (u[k] - v[k]) * (u[k] - v[k])]) IN
    Match([i \in DOMAIN a |-> [j \in DOMAIN b |-> rd * sq(X[a[i]], Y[b[j]]) + rc * pred[b[j]][y[a[i]] + 1]]])
\* ---------------------------------------------------------------- class confusion; a row is the set of classes it hesitates between
MccTerms(rows, K, S) ==          \* per class, in 1/S
    LET u(i) == LET s == Cardinality(rows[i]) IN (1728 * (s + 1)) \div (s * s * s)
        has(c) == SelectSeq([i \in DOMAIN rows |-> i], LAMBDA i : c \in rows[i])
        off(c) == Sum([k \in DOMAIN has(c) |-> u(has(c)[k]) * (Cardinality(rows[has(c)[k]]) - 1)])
        all(c) == Sum([k \in DOMAIN has(c) |-> u(has(c)[k]) * Cardinality(rows[has(c)[k]])]) IN
    [c \in 1..K |-> (S * off(c)) \div all(c)]
\* ---------------------------------------------------------------- neighbourhood aware pseudo labels
\* K nearest entries of the bank not in the batch (distances differ); outs in eighths
Nearest(x, bank, out, K) == CHOOSE S \in SUBSET (DOMAIN bank \ out) : Cardinality(S) = K /\ \A a \in S : \A b \in (DOMAIN bank \ out) \ S : Abs(x - bank[a]) <= Abs(x - bank[b])
RECURSIVE SumSet(_)
SumSet(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN t[2] + SumSet(T \ {t})
Votes(S, outs, c) == SumSet({<<a, outs[a][c]>> : a \in S})
Winner(S, outs) == CHOOSE c \in DOMAIN outs[1] : \A e \in DOMAIN outs[1] : Votes(S, outs, e) <= Votes(S, outs, c)
Clear(x, bank, outs, out, K) ==
    /\ \A a, b \in DOMAIN bank \ out : a # b => Abs(x - bank[a]) # Abs(x - bank[b])
    /\ LET S == Nearest(x, bank, out, K) IN \A e \in DOMAIN outs[1] : e # Winner(S, outs) => Votes(S, outs, e) < Votes(S, outs, Winner(S, outs))
=============================================================================
