----------------------------- MODULE Generators -----------------------------
(* What a synthetic data set must contain, and how two data sets made with     *)
(* related arguments relate.  Numbers are fixed-point integers.                *)
EXTENDS Integers, Sequences, FiniteSets
Rng(s) == {s[i] : i \in DOMAIN s}
Abs(z) == IF z < 0 THEN -z ELSE z
Near(a, b, tol) == Abs(a - b) <= tol
CountOf(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
Rep(v, n) == [i \in 1..n |-> v]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
\* ---------------------------------------------------------------- sizes, by generator and side
\* q: [gen, n (points per cluster), classes, shift, label, num, den]; source: BOOLEAN
SizeOf(q, n) == CASE q.gen = "blobs" -> n
                  [] q.gen = "moons" -> 2 * n
                  [] q.gen = "freq" -> n * q.classes
                  [] q.gen = "shifted" -> IF q.shift = "subspace" THEN 4 * n ELSE 8 * n
\* number of samples of each class, as far as promised: a function class -> number, or none
Quarter(n, k) == (n \div 4) + (IF k <= n % 4 THEN 1 ELSE 0)
Counts(q, n, source) ==
    CASE q.gen = "moons" -> [c \in {0, 1} |-> n]
      [] q.gen = "freq" -> [c \in 0..q.classes - 1 |-> n]
      [] q.gen = "shifted" /\ (source \/ q.shift \in {"conditional_shift", "subspace"}) ->
            IF q.shift = "subspace"
            THEN IF q.label = "binary" THEN [c \in {0, 1} |-> 2 * n]
                 ELSE [c \in {0} \cup {k \in 1..4 : Quarter(2 * n, k) > 0} |-> IF c = 0 THEN 2 * n ELSE Quarter(2 * n, c)]
            ELSE IF q.label = "binary" THEN [c \in {0, 1} |-> 4 * n]
                 ELSE [c \in 0..4 |-> IF c = 0 THEN 4 * n ELSE n]
      [] OTHER -> <<>>
\* labels a side may hold when the numbers are left to chance
Allowed(q) == CASE q.gen = "blobs" -> 0..q.classes - 1
                [] q.gen = "shifted" -> IF q.label = "binary" THEN {0, 1} ELSE 0..4
                [] OTHER -> 0..q.classes - 1
\* target shift: the share num/den of the samples is of class 0
FirstShare(q, n) == (8 * n * q.num) \div q.den
\* ---------------------------------------------------------------- related data sets
\* x scaled: b = (num/den) * a + add, entry by entry
Affine(a, b, num, den, add, tol) == \A i \in DOMAIN a : \A k \in DOMAIN a[i] : Near(den * b[i][k], num * a[i][k] + den * add, tol * den)
\* noise is added to the clean data and grows linearly with its scale
Linear(clean, one, s, num, den, tol) == \A i \in DOMAIN clean : \A k \in DOMAIN clean[i] :
    Near(den * (s[i][k] - clean[i][k]), num * (one[i][k] - clean[i][k]), tol * den)
\* labels decrease with r (squared distance in label space); both scaled
Decreasing(r, y, tol) == \A i, j \in DOMAIN r : r[i] + tol < r[j] => y[i] >= y[j]
=============================================================================
