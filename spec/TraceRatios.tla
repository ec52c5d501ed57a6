---------------------------- MODULE TraceRatios -----------------------------
EXTENDS Ratios, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
\* xs, xt: rows the adapter was fitted on; q: source rows asked about; w: their weights in 1/1000; rest: weights of target rows
Basic(e) == F({<<"one_weight_per_row", Len(e.w) = Len(e.q) /\ Len(e.rest) = e.ntq>>, <<"negative_weight", \A i \in DOMAIN e.w : e.w[i] >= 0>>,
               <<"finite", e.finite>>, <<"target_row_weighted", \A i \in DOMAIN e.rest : e.rest[i] = 0>>,
               <<"inputs_changed", ~e.changed>>, <<"estimator_parameter_fitted", ~e.fitted>>})
MeanOne(e) == Abs(Sum(e.w) - 1000 * Len(e.w)) <= Len(e.w)
\* nearest neighbour counts among the passed rows themselves
NNFails(e) == F({<<"not_the_count_of_nearest_targets", \A i \in DOMAIN e.q :
                      LET v == (e.w[i] \div 1000) - e.smooth IN e.w[i] % 1000 = 0 /\ v >= Sole(e.q, e.tq, i) /\ v <= May(e.q, e.tq, i)>>,
                 <<"every_target_counts_once", Sum(e.w) = 1000 * (Len(e.tq) + e.smooth * Len(e.q))>>})
\* T[d + 1]: kernel value at squared distance d in 1/10000; g: rate in eighths (a smooth kernel exp(-g d / 8)) or the radius of a flat one
\* rule: "auto" takes one over the number of columns, "scale" one over that times the variance of all values
Values(e) == LET A == e.xs \o e.xt IN [i \in 1..(Len(A) * Len(A[1])) |-> A[((i - 1) \div Len(A[1])) + 1][((i - 1) % Len(A[1])) + 1]]
Rate(e) == IF e.rule = "auto" THEN 10000 \div Len(e.xs[1])
           ELSE IF e.rule = "scale" THEN LET V == Values(e)  N == Len(V)  var == N * Sum([i \in 1..N |-> V[i] * V[i]]) - Sum(V) * Sum(V) IN IF var = 0 THEN 10000 ELSE (10000 * N * N) \div (var * Len(e.xs[1]))
           ELSE e.g * 1250
TableOk(e) == \A d \in DOMAIN e.T : IF e.flat THEN e.T[d] = (IF 4 * (d - 1) < e.g * e.g THEN 10000 ELSE 0)
                                    ELSE e.T[d] < 200 \/ Abs(Ln(e.T[d], 10000) + Rate(e) * (d - 1)) <= 20 + d + 10000 \div e.T[d]
Mass(e, x, S) == Sum([j \in DOMAIN S |-> e.T[Dist2(x, S[j]) + 1]])
DensityFails(e) == IF ~TableOk(e) THEN {"table"} ELSE
    LET none == \E i \in DOMAIN e.q : Mass(e, e.q[i], e.xs) < (IF e.flat THEN 1 ELSE 2000)
        R == [i \in DOMAIN e.q |-> IF none THEN 0 ELSE (Mass(e, e.q[i], e.xt) * 1000) \div Mass(e, e.q[i], e.xs)]  tot == Sum(R) IN
    IF none THEN {} ELSE IF tot < (IF e.flat THEN 1 ELSE 200) THEN (IF e.flat THEN F({<<"no_target_anywhere_near", \A i, j \in DOMAIN e.w : e.w[i] = e.w[j]>>}) ELSE {})
    ELSE F({<<"mean_one", MeanOne(e)>>, <<"not_the_density_ratio", \A i \in DOMAIN e.q : Abs(e.w[i] * tot - 1000 * Len(e.q) * R[i]) <= tot * 2 + (tot \div 100) * 30 + 8000 * Len(e.q)>>})
\* a classifier that counts: probability of target (ct + 1) / (ct + cs + 2)
OddsFails(e) == LET R == [i \in DOMAIN e.q |-> (840 * (Same(e.q[i], e.xt) + 1)) \div (Same(e.q[i], e.xs) + 1)]  tot == Sum(R) IN
    F({<<"mean_one", MeanOne(e)>>, <<"not_the_odds", \A i \in DOMAIN e.q : Abs(e.w[i] * tot - 1000 * Len(e.q) * R[i]) <= 2 * tot + 2000 * Len(e.q)>>})
\* lw: logarithms of the weights in 1/10000
GaussFails(e) == LET d == Len(e.xs[1])  Ds == Det(e.xs, e.half)  Dt == Det(e.xt, e.half)
                     const == Ln(Ds, 1) - Ln(Dt, 1) + 2 * d * (Ln(Len(e.xt), 1) - Ln(Len(e.xs), 1)) IN
    IF Ds = 0 \/ Dt = 0 THEN {} ELSE
    F({<<"not_the_ratio_of_normals", \A i \in DOMAIN e.q : LET want == const + Q(e.q[i], e.xs, e.half, 10000) - Q(e.q[i], e.xt, e.half, 10000) IN
           Abs(want) > 1000000 \/ Abs(2 * e.lw[i] - want) <= 60>>})
\* wt: weight function at the target rows in 1/100000.  The likelihood of the targets cannot be raised along any centre.
Gain(e, c) == Sum([j \in DOMAIN e.xt |-> (e.T[Dist2(e.xt[j], e.xt[c]) + 1] * 100000) \div e.wt[j]])
KliepFails(e) == IF ~TableOk(e) THEN {"table"} ELSE
    F({<<"mean_one", ~e.own \/ MeanOne(e)>>, <<"same_seed_other_weights", e.again>>,
       <<"target_likelihood_can_be_raised", ~e.full \/ \A c \in DOMAIN e.xt :
           Len(e.xs) * Gain(e, c) <= Len(e.xt) * ((Mass(e, e.xt[c], e.xs) * (100 + e.slack)) \div 100) + 400 * Len(e.xs)>>,
       <<"chosen_gamma_not_offered", e.offered>>,
       <<"chosen_gamma_not_the_likeliest", \A i, j \in DOMAIN e.cvs : e.cvs[i].g = e.g => e.cvs[i].v >= e.cvs[j].v - 20>>})
\* kernel mean matching: the weights on the fitted rows (fit, 1/1000) are where no move of mass brings the two mean embeddings closer,
\* the mass being within eps percent of the number of rows (all but one over the root of it when not given) and every weight below B.
Dot(a, b) == Sum([i \in DOMAIN a |-> a[i] * b[i]])
Unit(e) == IF e.kernel = "rbf" THEN 10000 ELSE 1
Kern(e, a, b) == CASE e.kernel = "rbf" -> e.T[Dist2(a, b) + 1] [] e.kernel = "linear" -> Dot(a, b) [] OTHER -> (Dot(a, b) + 8) * (Dot(a, b) + 8)
\* in 1/1000 of the kernel's unit
Slope(e, i) == LET n == Len(e.xs)  m == Len(e.xt) IN
    (Sum([j \in 1..n |-> (Kern(e, e.xs[i], e.xs[j]) * e.fit[j]) \div Unit(e)]) - (1000 * n * Sum([j \in 1..m |-> Kern(e, e.xs[i], e.xt[j])])) \div (m * Unit(e)))
\* 1 / sqrt(n) in 1/1000
Root == <<1000, 707, 577, 500, 447, 408, 378, 354, 333, 316>>
KmmFails(e) ==
    LET n == Len(e.xs)  S == [i \in 1..n |-> Slope(e, i)]
        eps == IF e.eps < 0 THEN 1000 - Root[n] ELSE 10 * e.eps
        lo == n * (1000 - eps)  hi == n * (1000 + eps)  top == 1000 * e.B  tot == Sum(e.fit)  dl == 30
        tol == e.gtol * (IF e.kernel = "rbf" THEN 1 ELSE IF e.kernel = "linear" THEN 20 ELSE 100) IN
    IF ~TableOk(e) THEN {"table"} ELSE
    F({<<"mass_out_of_range", tot >= lo - 5 - n /\ tot <= hi + 5 + n>>, <<"above_the_bound", \A i \in 1..n : e.fit[i] <= top + 2 /\ e.fit[i] >= -1>>,
       <<"means_can_be_brought_closer", \A i, j \in 1..n : (e.fit[i] > dl /\ e.fit[j] < top - dl) => S[j] - S[i] >= -tol>>,
       <<"means_ask_for_more_mass", tot > hi - dl - n \/ \A i \in 1..n : e.fit[i] < top - dl => S[i] >= -tol>>,
       <<"means_ask_for_less_mass", tot < lo + dl + n \/ \A i \in 1..n : e.fit[i] > dl => S[i] <= tol>>,
       \* asked about exactly the fitted rows, the weights found; about other rows, the smoothed ones
       <<"not_the_weights_found", ~(e.own /\ ~e.smoothed) \/ \A i \in DOMAIN e.q : Abs(e.w[i] - e.fit[i]) <= 1>>,
       <<"not_the_smoothed_weights", (~e.smoothed /\ (e.same \/ {e.q[i] : i \in DOMAIN e.q} = {e.xs[i] : i \in DOMAIN e.xs})) \/ \A i \in DOMAIN e.q :
             LET want == Sum([j \in 1..n |-> (Kern(e, e.q[i], e.xs[j]) * e.fit[j]) \div Unit(e)]) IN Abs(e.w[i] - want) <= n * (2 + Kern(e, e.q[i], e.q[i]) \div Unit(e)) + want \div 200 + (IF e.kernel = "rbf" THEN 0 ELSE 40 * n)>>})
\* y, qy: labels of source rows; shares: targets are the source rows of class c, cnt[c] times each
TarsFails(e) == LET m == Len(e.xs)  n == Len(e.xt)  Of(c) == Cardinality({i \in DOMAIN e.y : e.y[i] = c})  From(c) == Cardinality({i \in DOMAIN e.ty : e.ty[i] = c}) IN
    F({<<"weight_depends_on_more_than_the_class", \A i, j \in DOMAIN e.q : e.qy[i] = e.qy[j] => Abs(e.w[i] - e.w[j]) <= 1>>,
       <<"above_the_bound", \A i \in DOMAIN e.w : e.w[i] <= 10005>>,
       <<"not_the_label_shift", ~e.copies \/ (\E c \in {e.y[i] : i \in DOMAIN e.y} : From(c) * m > 10 * n * Of(c)) \/ \A i \in DOMAIN e.q : LET c == e.qy[i] IN Abs(e.w[i] * n * Of(c) - 1000 * From(c) * m) <= 30 * n * Of(c)>>})
Failing(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE
    LET b == Basic(e) IN IF b # {} THEN b ELSE
    CASE e.ev = "nn" -> NNFails(e) [] e.ev = "density" -> DensityFails(e) [] e.ev = "odds" -> OddsFails(e) [] e.ev = "gauss" -> GaussFails(e)
      [] e.ev = "kliep" -> KliepFails(e) [] e.ev = "tars" -> TarsFails(e) [] e.ev = "kmm" -> KmmFails(e) [] OTHER -> {"unknown_event"}
Tags(e) == {e.ev} \cup (IF e.rule # "" THEN {e.ev \o "_" \o e.rule} ELSE {}) \cup (IF e.cvs # <<>> THEN {"rate_chosen"} ELSE {}) \cup (IF e.err # "" THEN {} ELSE IF e.own THEN {"training_rows"} ELSE {"other_rows"})

Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
=============================================================================
