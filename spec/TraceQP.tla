------------------------------ MODULE TraceQP -------------------------------
EXTENDS QP, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
S == 200
V == 1000
Halves(d, R) == Grid(d, -2 * R, 2 * R)
AtS(z) == [i \in DOMAIN z |-> (S \div 2) * z[i]]
\* ---------------------------------------------------------------- qp_solve
FwSlack(e) == IF e.w = <<>> THEN 0 ELSE (4 * S * S * Curv(e.Q, e.w, e.hi, e.low, e.p.ub)) \div (e.k + 2)
BoundsOnly(p) == p.A = <<>> /\ p.E = <<>>
AsEquality(e) == [e.full EXCEPT !.E = e.full.A, !.e = e.full.b]
\* SLSQP takes an infeasible start with, by coincidence, the value of its first iterate for convergence
Coincidence(e) == ~e.fw /\ LET s == [i \in DOMAIN e.x0 |-> LET v == IF e.p.lb = <<>> THEN e.x0[i] ELSE Max2(e.x0[i], e.p.lb[i]) IN
                                                       S * (IF e.p.ub = <<>> THEN v ELSE Min2(v, e.p.ub[i]))] IN
    e.x # s /\ ~Inside(e.full, s, S, 0) /\ Abs(80 * e.v - F2(e.Q, e.c, s, S)) <= 80
QpFails(e) == IF e.err # "" THEN (IF e.fw /\ e.err = "ValueError" /\ Hopeless(e.full) THEN {}
                                  ELSE IF e.onerow /\ e.err = "ValueError" /\ Hopeless(AsEquality(e)) THEN {"one_inequality_read_as_equality"} ELSE {"raised_" \o e.err}) ELSE
    F({<<"arguments_changed", ~e.changed>>,
       <<"solved_although_infeasible", Hopeless(e.full) => ~e.solved>>,
       <<"failure_without_warning", e.solved \/ e.warned>>,
       <<"warning_with_value", e.fw \/ ~(e.solved /\ e.warned)>>,
       <<"length_of_answer", Len(e.x) = Len(e.Q)>>,
       <<"log", e.log>>}) \cup
    (IF ~e.solved \/ Len(e.x) # Len(e.Q) THEN {} ELSE F({
       <<"bound_or_constraint_violated", Inside(e.full, e.x, S, 1)>>,
       <<"value_is_not_that_of_the_point", Abs(80 * e.v - F2(e.Q, e.c, e.x, S)) <= Blur(e.Q, e.c, e.x, S) + 160>>,
       \* one row A x <= b given to Frank-Wolfe is read as A x = b (known finding); against that reading the answer must be right
       <<"one_inequality_read_as_equality", ~e.onerow \/ \A z \in Halves(e.d, e.R) : Inside(e.full, AtS(z), S, 0) => NoWorse(e.Q, e.c, e.v, V, AtS(z), S, 800 + FwSlack(e))>>,
       <<"worse_than_a_feasible_point", Coincidence(e) \/ \A z \in Halves(e.d, e.R) :
            Inside(IF e.onerow THEN AsEquality(e) ELSE e.full, AtS(z), S, 0) => NoWorse(e.Q, e.c, e.v, V, AtS(z), S, 800 + FwSlack(e))>>,
       \* with bounds only, the slope vanishes off the bounds and points outwards on them
       <<"slope_off_the_bounds", e.fw \/ Coincidence(e) \/ ~BoundsOnly(e.p) \/
           LET g == Grad(e.Q, e.c, e.x, S) IN \A i \in DOMAIN g : LET t == Abs1(e.Q[i]) + 8 IN
              /\ ((e.p.lb = <<>> \/ e.x[i] > S * e.p.lb[i] + 1) => g[i] <= t)
              /\ ((e.p.ub = <<>> \/ e.x[i] < S * e.p.ub[i] - 1) => g[i] >= -t)>>}))
\* ---------------------------------------------------------------- single steps: e.s[k] = x_k * k(k+1)/2
T(n) == (n * (n + 1)) \div 2
StepsFails(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE
    LET cs == Corners(e.w, e.lo, e.hi, e.low, e.ub)
        old(k) == IF k = 1 THEN [i \in DOMAIN e.w |-> 0] ELSE e.s[k - 1]
        v(k) == [i \in DOMAIN e.w |-> (e.s[k][i] - old(k)[i]) \div k]
        slope(k) == IF k = 1 THEN Grad(e.Q, e.c, e.x0, 1) ELSE Grad(e.Q, e.c, e.s[k - 1], T(k - 1)) IN
    F({<<"iterate_off_the_integers", e.exact>>, <<"arguments_changed", ~e.changed>>,
       <<"step_length", \A k \in DOMAIN e.s : \A i \in DOMAIN e.w : (e.s[k][i] - old(k)[i]) % k = 0>>,
       <<"step_towards_infeasible_point", \A k \in DOMAIN e.s : v(k) \in cs>>,
       <<"step_not_steepest", \A k \in DOMAIN e.s : (k > 1 \/ e.x0 # <<>>) => \A z \in cs : Dot(slope(k), v(k)) <= Dot(slope(k), z)>>})
\* ---------------------------------------------------------------- gradient minimiser
TorchFails(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE F({
    <<"start_changed", ~e.changed>>, <<"shape_of_answer", e.shapes = e.want>>,
    <<"value_is_not_that_of_the_point", e.own>>, <<"ends_above_start", e.v <= e.v0 + 1>>,
    <<"warning_against_slope", e.gap \/ e.warned = e.above>>,
    <<"not_converged_with_budget", e.budget < 100 \/ ~e.above>>,
    <<"worse_than_a_grid_point", e.Q = <<>> \/ e.above \/ \A z \in Halves(Len(e.Q), 2) : NoWorse(e.Q, e.c, e.v, V, AtS(z), S, 800)>>})
\* ---------------------------------------------------------------- kernel mean matching, linear kernel: points are rows of e.xs, e.xt
KMM(e) == LET n == Len(e.xs)  m == Len(e.xt)
              K == [i \in 1..n |-> [j \in 1..n |-> Dot(e.xs[i], e.xs[j])]]
              q == [i \in 1..n |-> -n * Sum([j \in 1..m |-> Dot(e.xs[i], e.xt[j])])] IN
          [Q |-> [i \in 1..n |-> [j \in 1..n |-> m * K[i][j]]], c |-> q]
Ones(n) == [i \in 1..n |-> 1]
\* total within n (1 - num/den) .. n (1 + num/den)
KmmFails(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE
    LET n == Len(e.xs)  m == Len(e.xt)  p == KMM(e)  sum == Sum(e.x)
        \* rounding of all coordinates
        r == n
        tot(x, s, t) == (e.den - e.num) * n * s <= e.den * (x + t) /\ e.den * (x - t) <= (e.den + e.num) * n * s
        diam == n * e.B * e.B
        slack == IF e.fw THEN (4 * S * S * diam * Sum([i \in 1..n |-> p.Q[i][i]])) \div (e.k + 2) ELSE 0 IN
    F({<<"weight_out_of_bounds", e.warned \/ \A i \in 1..n : -1 <= e.x[i] /\ e.x[i] <= S * e.B + 1>>,
       <<"total_weight", e.warned \/ tot(sum, S, r)>>, <<"one_weight_per_source_row", Len(e.x) = n>>,
       <<"target_rows_weighted", e.zero>>, <<"data_changed", ~e.changed>>,
       <<"worse_weights_than_another", e.warned \/ ~e.exact \/ \A z \in Grid(n, 0, e.B) : tot(Sum(z), 1, 0) =>
            F2(p.Q, p.c, e.x, S) <= F2(p.Q, p.c, z, 1) * S * S + Blur(p.Q, p.c, e.x, S) + slack + m * 2000>>})
TarsFails(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE
    LET n == Len(e.y) IN F({
       <<"weight_out_of_bounds", e.warned \/ \A i \in 1..n : -1 <= e.x[i] /\ e.x[i] <= 10 * S + 1>>,
       <<"weights_differ_within_class", \A i, j \in 1..n : e.y[i] = e.y[j] => Abs(e.x[i] - e.x[j]) <= 1>>,
       \* eps = 10 / (4 sqrt n): the total may not leave n (1 - eps) .. n (1 + eps); (2 (x - n))^2 <= 25 n
       <<"total_weight", e.warned \/ LET gap == Max2(0, Abs(Sum(e.x) - n * S) - n) \div 10 IN 4 * gap * gap <= 25 * n * (S \div 10) * (S \div 10)>>,
       <<"target_rows_weighted", e.zero>>})
Failing(e) == CASE e.ev = "qp" -> QpFails(e)
                [] e.ev = "steps" -> StepsFails(e)
                [] e.ev = "refuse" -> F({<<"unsupported_problem_accepted", e.err = "ValueError">>})
                [] e.ev = "torch" -> TorchFails(e)
                [] e.ev = "kmm" -> KmmFails(e)
                [] e.ev = "tars" -> TarsFails(e)
                [] OTHER -> {"unknown_event"}
Tags(e) == CASE e.ev = "qp" -> {IF e.fw THEN "frank_wolfe" ELSE "scipy", IF e.solved THEN "solved" ELSE "unsolved"} \cup (IF Hopeless(e.full) THEN {"hopeless"} ELSE {})
             [] e.ev = "torch" -> {"torch", IF e.warned THEN "not_converged" ELSE "converged"}
             [] OTHER -> {e.ev}

Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
=============================================================================
