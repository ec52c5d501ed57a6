------------------------------- MODULE Ratios -------------------------------
(* Importance weights: what a source sample weighs is how many target samples   *)
(* it stands for.  Everything is in integers; logarithms in 1/10000.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(v) == IF v < 0 THEN -v ELSE v
Zero(d) == [i \in 1..d |-> 0]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Dist2(a, b) == Sum([i \in DOMAIN a |-> (a[i] - b[i]) * (a[i] - b[i])])
\* rows of S at smallest distance from x
Nearest(x, S) == {i \in DOMAIN S : \A j \in DOMAIN S : Dist2(x, S[i]) <= Dist2(x, S[j])}
Sole(S, T, i) == Cardinality({t \in DOMAIN T : Nearest(T[t], S) = {i}})
May(S, T, i) == Cardinality({t \in DOMAIN T : i \in Nearest(T[t], S)})
Within(x, S, r2) == Cardinality({j \in DOMAIN S : Dist2(x, S[j]) <= r2})
Same(x, S) == Cardinality({j \in DOMAIN S : S[j] = x})
\* sample moments, times n resp. n^2
S1(S, a) == Sum([i \in DOMAIN S |-> S[i][a]])
S2(S, a, b) == Sum([i \in DOMAIN S |-> S[i][a] * S[i][b]])
Cov(S, a, b) == Len(S) * S2(S, a, b) - S1(S, a) * S1(S, b)
\* covariance times 4 n^2, half of it spread evenly over the axes when shrunk by one half
Shrunk(S, a, b, half) == IF half THEN 2 * Cov(S, a, b) + (IF a = b THEN Cov(S, 1, 1) + Cov(S, 2, 2) ELSE 0) ELSE 4 * Cov(S, a, b)
Det(S, half) == IF Len(S[1]) = 1 THEN 4 * Cov(S, 1, 1) ELSE Shrunk(S, 1, 1, half) * Shrunk(S, 2, 2, half) - Shrunk(S, 1, 2, half) * Shrunk(S, 1, 2, half)
\* squared Mahalanobis distance of x from the sample, in 1/scale
Q(x, S, half, scale) == LET n == Len(S)  d(a) == n * x[a] - S1(S, a) IN
    IF Len(x) = 1 THEN (4 * scale * d(1) * d(1)) \div Det(S, half)
    ELSE LET num == (d(1) * d(1) * Shrunk(S, 2, 2, half) - 2 * d(1) * d(2) * Shrunk(S, 1, 2, half) + d(2) * d(2) * Shrunk(S, 1, 1, half)) * 4  det == Det(S, half) IN
         (num \div det) * scale + ((num % det) * scale) \div det
\* natural logarithm of a positive rational, in 1/10000
Tdiv(a, b) == IF a < 0 THEN -((-a + b \div 2) \div b) ELSE (a + b \div 2) \div b
RECURSIVE Half(_, _, _), Series(_, _, _, _)
Half(a, b, k) == IF a >= 2 * b THEN Half(a, 2 * b, k + 1) ELSE IF 2 * a < b THEN Half(2 * a, b, k - 1) ELSE <<a, b, k>>
Series(p, t, t2, j) == IF j > 13 \/ p = 0 THEN 0 ELSE Tdiv(p, j) + Series(Tdiv(p * t2, 10000), t, t2, j + 2)
Ln(num, den) == LET r == Half(num, den, 0)
                    s == IF r[1] > 20000 \/ r[2] > 20000 THEN LET m == (IF r[1] > r[2] THEN r[1] ELSE r[2]) \div 20000 + 1 IN <<r[1] \div m, r[2] \div m>> ELSE <<r[1], r[2]>>
                    t == Tdiv((s[1] - s[2]) * 100000, s[1] + s[2]) IN
    Tdiv(2 * Series(t, t, Tdiv(Tdiv(t, 10) * Tdiv(t, 10), 10000), 1), 10) + r[3] * 6931 + Tdiv(r[3] * 47, 100)
=============================================================================
