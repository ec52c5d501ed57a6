-------------------------- MODULE TraceSpherical ----------------------------
EXTENDS Spherical, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
\* u, dirs, cen: unit rows, directions of the centres, centres, in 1/1000; inertia in 1/1000
Near(x, dirs, k, t) == \A j \in DOMAIN dirs : Dot(x, dirs[j]) <= Dot(x, dirs[k]) + t
Slip(d) == 1000 * d * 2
FitFails(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE
    LET n == Len(e.u)  d == Len(e.u[1])  own == [i \in 1..n |-> e.dirs[e.lab[i]]]
        gone == Sum([i \in 1..n |-> 1000 - Dot(e.u[i], own[i]) \div 1000]) IN
    F({<<"number_of_clusters", Len(e.cen) = e.k>>, <<"label_out_of_range", \A i \in 1..n : e.lab[i] \in 1..e.k>>,
       <<"iterations", e.iters >= 1 /\ e.iters <= e.max>>,
       <<"data_changed", ~e.changed>>, <<"initial_centres_changed", ~e.moved>>, <<"global_random_state_changed", e.glob>>,
       <<"same_seed_other_answer", e.again>>, <<"fit_returns_itself", e.self>>,
       <<"row_order_of_predictions", e.order>>, <<"kind_of_input", e.kind>>}) \cup
    (IF \E i \in 1..n : e.lab[i] \notin 1..e.k THEN {} ELSE F({
       <<"not_the_nearest_centre", \A i \in 1..n : Near(e.u[i], e.dirs, e.lab[i], Slip(d))>>,
       <<"scaled_row_elsewhere", \A i \in 1..n : Near(e.u[i], e.dirs, e.scaled[i], Slip(d))>>,
       <<"centre_is_not_the_sum_of_its_rows", ~e.settled \/ e.tied \/ \A k \in 1..e.k : LET t == Total(Members(e.u, e.lab, k), d) IN
            \A c \in 1..d : Abs(t[c] - e.cen[k][c]) <= n + e.tol>>,
       \* twice the inertia is the sum of 1 - cos
       <<"inertia_is_not_the_distance_to_own_centres", ~e.settled \/ Abs(2 * e.inertia - gone) <= 3 * n + 4>>,
       <<"inertia_below_nearest", 2 * e.inertia >= gone - 3 * n - 4>>}))
\* inertia may not rise with more restarts or more rounds
Falls(s) == \A i, j \in DOMAIN s : i < j => s[j] <= s[i] + 2
RunsFails(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE
    F({<<"more_restarts_worse", Falls(e.inits)>>, <<"more_rounds_worse", Falls(e.rounds)>>, <<"seed_ignored", e.differ>>,
       <<"generator_not_advanced", e.gen>>})
\* rows of length 5 and integer initial centres: the machine's own run.  c5: centres times 5
Tie(X, C) == \E i \in DOMAIN X : \E a, b \in DOMAIN C : a # b /\ ~Closer(X[i], C[a], C[b]) /\ ~Closer(X[i], C[b], C[a])
                 /\ \A k \in DOMAIN C : ~Closer(X[i], C[k], C[a])
RECURSIVE Run(_, _, _, _)
\* a run at a fixed point stays there
Run(X, C, K, m) == IF m = 0 THEN [C |-> C, tie |-> FALSE]
    ELSE IF Tie(X, C) THEN [C |-> C, tie |-> TRUE]
    ELSE Run(X, Centres(X, Assign(X, C), K, Len(X[1])), K, m - 1)
ExactFails(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE
    LET r == Run(e.X, e.C, Len(e.C), e.max) IN
    F({<<"centres_after_rounds", r.tie \/ e.c5 = r.C>>, <<"labels_after_rounds", r.tie \/ Tie(e.X, r.C) \/ e.lab = Assign(e.X, r.C)>>})
Failing(e) == CASE e.ev = "fit" -> FitFails(e) [] e.ev = "runs" -> RunsFails(e) [] e.ev = "exact" -> ExactFails(e) [] OTHER -> {"unknown_event"}
Tags(e) == {e.ev} \cup (IF e.ev = "fit" THEN {IF e.settled THEN "settled" ELSE "cut_short"} ELSE IF e.ev = "exact" THEN (IF Run(e.X, e.C, Len(e.C), e.max).tie THEN {"tied"} ELSE {"untied"}) ELSE {})

Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
=============================================================================
