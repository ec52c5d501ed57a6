------------------------------ MODULE Scorers ------------------------------
(* Validation scores over rows 1..n with domains D (>= 0: source) and labels. *)
(* Real values are integers at a stated scale; logs are base 2.               *)
EXTENDS Integers, Sequences, FiniteSets
IsSrc(d) == d >= 0
SrcRows(D) == {i \in 1..Len(D) : IsSrc(D[i])}
TgtRows(D) == {i \in 1..Len(D) : ~IsSrc(D[i])}
Rng(s) == {s[i] : i \in 1..Len(s)}
AbsV(v) == IF v < 0 THEN -v ELSE v
Near(a, b, tol) == AbsV(a - b) <= tol
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A k \in S : m <= k IN <<m>> \o Asc(S \ {m})
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
\* ---- base-2 logarithm of a/b, as an integer at scale 4096
RECURSIVE Up(_, _, _), Bits(_, _, _)
\* normalise a/b to mantissa in [2^14, 2^15) and exponent
Up(a, b, e) == IF a >= 2 * b THEN Up(a, 2 * b, e + 1) ELSE IF a < b THEN Up(2 * a, b, e - 1) ELSE <<(a * 16384) \div b, e>>
Bits(m, k, acc) == IF k = 0 THEN acc
                   ELSE LET q == (m * m) \div 16384 IN
                        IF q >= 32768 THEN Bits(q \div 2, k - 1, 2 * acc + 1) ELSE Bits(q, k - 1, 2 * acc)
Log2(a, b) == LET u == Up(a, b, 0) IN 4096 * u[2] + Bits(u[1], 12, 0)
\* ---- entropy of predictions: p in eighths, lp integer log probabilities (in the score's unit)
EntropyTerms(P, LP) == [i \in 1..Len(P) |-> [c \in 1..Len(P[i]) |-> IF P[i][c] = 0 THEN 0 ELSE -P[i][c] * LP[i][c]]]
EntropySum8(P, LP) == LET t == EntropyTerms(P, LP) IN SumSeq([i \in 1..Len(t) |-> SumSeq(t[i])])
\* ---- soft neighbourhood density for one-hot predictions cls, temperature 1/ln 2
SndRow(cls, i) ==
    LET s == Cardinality({j \in 1..Len(cls) : j # i /\ cls[j] = cls[i]})
        o == Len(cls) - 1 - s
        z2 == 4 * s + 2 * o + 1          \* twice the normaliser
    IN Log2(z2, 2) - (4096 * (4 * s - 1)) \div z2
SndSum(cls) == SumSeq([i \in 1..Len(cls) |-> SndRow(cls, i)])
\* ---- deep embedded validation: r = density ratio, e = loss per held-out row, a/b = N_train/N_target.
\* score = mean(w e) + eta mean(w) - eta, w = (a/b) r, eta = -cov(w e, w)/var(w); over n V b
DevNum(r, e, a, b) ==
    LET n == Len(r)
        S1 == SumSeq([i \in 1..n |-> r[i] * e[i]])
        S2 == SumSeq(r)
        S3 == SumSeq([i \in 1..n |-> r[i] * r[i] * e[i]])
        S4 == SumSeq([i \in 1..n |-> r[i] * r[i]])
        C == n * S3 - S1 * S2
        V == n * S4 - S2 * S2
    IN IF V = 0 THEN [num |-> a * S1, den |-> n * b] ELSE [num |-> a * S1 * V - C * (a * S2 - b * n), den |-> n * V * b]
\* ---- importance weights 2^k, normalised
WeightsOK(w, k, scale) == LET t == SumSeq([i \in 1..Len(k) |-> Pow(2, k[i])]) IN
    \A i \in 1..Len(k) : Near(w[i] * t, Pow(2, k[i]) * scale, t)
\* ---- MaNo: Taylor softmax of integer logits, at scale 4096
Taylor2(l) == 2 + 2 * l + l * l
MinOf(s) == CHOOSE m \in Rng(s) : \A v \in Rng(s) : m <= v
MaxOf(s) == CHOOSE m \in Rng(s) : \A v \in Rng(s) : m >= v
TaylorRow(L) == LET t == [c \in 1..Len(L) |-> Taylor2(L[c])]
                    m == MinOf(t)
                    z == SumSeq([c \in 1..Len(L) |-> t[c] - m]) IN [c \in 1..Len(L) |-> ((t[c] - m) * 4096) \div z]
OneHotRow(L) == [c \in 1..Len(L) |-> IF L[c] = MaxOf(L) THEN 4096 ELSE 0]
\* lower bound of minus the mean log softmax (upper bound: + 2 for at most 7 classes)
CriterionSum(LL) == SumSeq([i \in 1..Len(LL) |-> SumSeq([c \in 1..Len(LL[i]) |-> MaxOf(LL[i]) - LL[i][c]])])
Peaked(LL) == \A i \in 1..Len(LL) : \A c, d \in 1..Len(LL[i]) : c # d => AbsV(LL[i][c] - LL[i][d]) >= 20 \/ (LL[i][c] # MaxOf(LL[i]) /\ LL[i][d] # MaxOf(LL[i]))
PPow(q, p) == IF p = 1 THEN q ELSE LET q2 == (q * q) \div 4096 IN IF p = 2 THEN q2 ELSE (q2 * q2) \div 4096
PSum(Q, p) == SumSeq([i \in 1..Len(Q) |-> SumSeq([c \in 1..Len(Q[i]) |-> PPow(Q[i][c], p)])])
\* ---- circular validation: roles swapped, targets carry (a renaming of) their predictions
Swapped(D, B) == /\ Len(B) = Len(D)
                 /\ \A i \in 1..Len(D) : IsSrc(B[i]) # IsSrc(D[i])
                 /\ \A i, j \in 1..Len(D) : (D[i] = D[j]) <=> (B[i] = B[j])
Renaming(pred, lab) == \A i, j \in 1..Len(pred) : (pred[i] = pred[j]) <=> (lab[i] = lab[j])
=============================================================================
