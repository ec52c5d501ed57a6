------------------------- MODULE TraceSelfTraining -------------------------
(* Judges recorded runs of the real self-training estimators.                *)
EXTENDS SelfTraining, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
\* ---------------------------------------------------------------- exchange
(* e.fits[r] = [src, tgt, ysrc, ytgt]: row numbers and labels the classifier of *)
(* round r was trained on; e.dec[r] = [s, t]: its decisions.                     *)
Label(e, v) == IF v > 0 THEN e.classes[2] ELSE e.classes[1]
RECURSIVE Walk(_, _, _, _)
\* replay rounds from round r on with the exchange state; returns failing clauses
Walk(e, r, del, add) ==
    LET n == Len(e.ys)  m == e.m  R == Len(e.fits) - 1
        f == e.fits[r]  d == e.dec[r]
        expS == (1..n) \ del
        okfit == /\ Rng(f.src) = expS /\ Len(f.src) = Cardinality(expS)
                 /\ Rng(f.tgt) = add /\ Len(f.tgt) = Cardinality(add)
        oksl == \A i \in 1..Len(f.src) : f.ysrc[i] = e.ys[f.src[i]]
        oktl == \A i \in 1..Len(f.tgt) : f.ytgt[i] = Label(e, e.dec[r - 1].t[f.tgt[i]])
        kept == IF r = 1 THEN {} ELSE add \ {i \in add : (d.t[i] > 0) # (e.dec[r - 1].t[i] > 0)}
        cand == MarginOf(1..m, kept, d.t)
        dels == {del \cup p : p \in Picks((1..n) \ del, d.s, e.k)}
        adds == {kept \cup p : p \in Picks(cand, d.t, e.k)}
        stop == cand = {} \/ r = e.maxiter
        nd == CHOOSE x \in dels : TRUE
        na == CHOOSE x \in adds : TRUE
        here == F({<<"training_rows", okfit>>, <<"source_labels", oksl>>, <<"self_labels", okfit => oktl>>})
                \cup (IF ~e.saved THEN {} ELSE
                      F({<<"saved_source_indices", r < Len(e.sdel) /\ Rng(e.sdel[r + 1]) \in dels>>,
                         <<"saved_target_indices", r < Len(e.sadd) /\ Rng(e.sadd[r + 1]) \in adds>>})) IN
    IF here # {} THEN here
    ELSE IF stop THEN F({<<"stops_late", R <= r>>}) \cup
                      (IF R > r THEN {} ELSE
                       LET g == e.fits[r + 1] IN
                       F({<<"final_rows", g.src = <<>> /\ Rng(g.tgt) = 1..m /\ Len(g.tgt) = m>>,
                          <<"final_labels", \A i \in 1..Len(g.tgt) : g.ytgt[i] = Label(e, d.t[g.tgt[i]])>>,
                          <<"saved_source_indices", e.saved => (Len(e.sdel) = r + 2 /\ Rng(e.sdel[r + 2]) = 1..n)>>,
                          <<"saved_target_indices", e.saved => (Len(e.sadd) = r + 2 /\ Rng(e.sadd[r + 2]) = 1..m)>>}))
    ELSE IF R <= r THEN {"stops_early"}
    ELSE Walk(e, r + 1, nd, na)
ExchangeFails(e) ==
    IF e.err # "" THEN {"fit_raised_" \o e.err}
    ELSE IF Len(e.fits) < 2 THEN {"too_few_fits"}
    ELSE (IF e.saved /\ (Len(e.sdel) = 0 \/ Rng(e.sdel[1]) # {} \/ Rng(e.sadd[1]) # {}) THEN {"saved_initial_indices"} ELSE {})
         \cup Walk(e, 1, {}, {})
         \cup F({<<"saved_estimators", e.nest = (IF e.saveest THEN Len(e.fits) ELSE 0)>>,
                 <<"fit_returns_self", e.retself>>, <<"base_estimator_fitted", ~e.basefit>>,
                 <<"target_labels_used", e.twin>>,
                 <<"recorded_estimator_of_another_round", \A k \in DOMAIN e.decs : k > Len(e.dec) \/ e.decs[k] = [i \in DOMAIN e.ids |->
                        LET d == e.dec[k]  n == Len(e.ys) IN IF e.ids[i] <= n THEN d.s[e.ids[i]] ELSE d.t[e.ids[i] - n]]>>,
                 <<"predicts_with_final", \A i \in 1..Len(e.q) : e.pred[i] = Label(e, e.q[i])>>,
                 <<"decides_with_final", e.decq = e.q>>,
                 <<"probabilities_of_final", e.prob = e.q>>})
\* ---------------------------------------------------------------- gradual
CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : CountIn(s, s[i]) = CountIn(t, s[i])
RowsOfPairs(e, P, s) == [p \in P |-> Between(e.Xs[p[1]], e.Xt[p[2]], s, e.nsteps)]
BagOfPairs(e, P, s, rows) ==
    LET R == RowsOfPairs(e, P, s) IN
    /\ Len(rows) = Cardinality(P)
    /\ \A i \in 1..Len(rows) : CountIn(rows, rows[i]) = Cardinality({p \in P : R[p] = rows[i]})
GradFails(e) ==
    IF e.err # "" THEN {"fit_raised_" \o e.err}
    ELSE LET n == Len(e.Xs)  m == Len(e.Xt)  S == e.nsteps
             src == [i \in 1..n |-> [x |-> [c \in 1..Len(e.Xs[i]) |-> S * e.Xs[i][c]], y |-> e.ys[i]]]
             got(f) == [i \in 1..Len(f.X) |-> [x |-> f.X[i], y |-> f.y[i]]]
             All == (1..n) \X (1..m)
             P == {p \in All : Between(e.Xs[p[1]], e.Xt[p[2]], 1, S) \in Rng(e.fits[2].X)}
         IN
         IF Len(e.fits) # S + 1 THEN {"number_of_stages"}
         ELSE F({<<"first_stage_is_source", SameBag(got(e.fits[1]), src)>>,
                 <<"number_of_pairs", \A s \in 1..S : IF e.advanced THEN Len(e.fits[s + 1].X) = Len(e.fits[2].X)
                                                     ELSE Len(e.fits[s + 1].X) = NPairs(e.alpha.num, e.alpha.den, n, m)>>,
                 <<"self_labels", \A s \in 1..S : \A i \in 1..Len(e.fits[s + 1].X) :
                       e.fits[s + 1].y[i] = LabelOf(e.cls[s], e.fits[s + 1].X[i], S)>>,
                 <<"last_stage_is_target", \A i \in 1..Len(e.fits[S + 1].X) :
                       \E j \in 1..m : e.fits[S + 1].X[i] = [c \in 1..Len(e.Xt[j]) |-> S * e.Xt[j][c]]>>,
                 <<"fit_returns_self", e.retself>>, <<"base_estimator_fitted", ~e.basefit>>,
                 <<"target_labels_used", e.twin>>,
                 <<"transport_method_fitted", ~e.otfit>>,
                 <<"recorded_estimators", e.nest = (IF e.saveest THEN S + 1 ELSE 0)>>,
                 <<"recorded_estimator_of_another_stage", \A k \in DOMAIN e.preds : e.preds[k] = [i \in DOMAIN e.q |-> LabelOf(e.cls[k], e.q[i], 1)]>>,
                 <<"recorded_data", IF e.savedata THEN e.data = SubSeq(e.fits, 2, S + 1) ELSE e.data = <<>> >>,
                 <<"predicts_with_final", \A i \in 1..Len(e.q) : e.pred[i] = LabelOf(e.cls[S + 1], e.q[i], 1)>>})
              \cup (IF S < 2 THEN {} ELSE
                    F({<<"walk_between_pairs", \A s \in 1..S : BagOfPairs(e, P, s, e.fits[s + 1].X)>>,
                       <<"retained_pairs", IF e.advanced THEN Covering(P, e.rank, n, m) ELSE TopPairs(P, e.rank, n, m)>>}))
\* ---------------------------------------------------------------- joint OT
(* e.rounds[r] = [y, resp]: labels transported to each target row and the      *)
(* estimator's response: predictions (regression) or label costs [j][c].        *)
MlOf(e, r) == [i \in 1..e.n |-> [j \in 1..e.n |->
                 IF e.kind = "reg" THEN (e.ys[i] - e.rounds[r].resp[j]) * (e.ys[i] - e.rounds[r].resp[j])
                 ELSE e.rounds[r].resp[j][e.ys[i] + 1]]]
TgtCost(e, r) == SumOver([j \in 1..e.n |->
                    IF e.kind = "reg" THEN (e.rounds[r].y[j] - e.rounds[r].resp[j]) * (e.rounds[r].y[j] - e.rounds[r].resp[j])
                    ELSE e.rounds[r].resp[j][e.rounds[r].y[j] + 1]], 1..e.n)
JointFails(e) ==
    IF e.err # "" THEN {"fit_raised_" \o e.err}
    ELSE LET n == e.n  R == Len(e.rounds)
             Mf == [i \in 1..n |-> [j \in 1..n |-> SqDist(e.Xs[i], e.Xt[j])]]
             Fs == FSum(Mf, n)
             Zero == [i \in 1..n |-> [j \in 1..n |-> 0]]
             MM == [r \in 1..R |-> Joint(Mf, IF r = 1 THEN Zero ELSE MlOf(e, r - 1), e.alpha, n, r = 1)]
             bests == [r \in 1..R |-> Best(MM[r], n)]
             Carries(p, r) == \A j \in 1..n : e.ys[p[j]] = e.rounds[r].y[j]
             \* the first recorded loss adds the label cost of the zero prediction
             first == IF e.kind = "reg" THEN e.alpha.num * Fs * SumOver([i \in 1..n |-> e.ys[i] * e.ys[i]], 1..n) ELSE 0
             settled(r) == r > 1 /\ (\/ Settled(e.oto[r], e.oto[r - 1], n * e.alpha.den * Fs, e.tol)
                                     \/ Settled(e.tgl[r], e.tgl[r - 1], n, e.tol))
         IN
         IF R = 0 THEN {"no_fit"} ELSE
         F({<<"loss_per_round", Len(e.oto) = R /\ Len(e.tgl) = R>>,
            <<"trains_on_target_rows", \A r \in 1..R : e.rounds[r].rows = [j \in 1..n |-> j]>>,
            <<"balanced_weights", e.flatw>>,
            <<"fit_returns_self", e.retself>>, <<"base_estimator_fitted", ~e.basefit>>,
            <<"target_labels_used", e.twin>>,
            <<"at_most_n_iter_max", R <= e.niter>>,
            <<"predicts_with_last", e.pred = e.last>>})
         \cup (IF Len(e.oto) # R \/ Len(e.tgl) # R \/ \E r \in 1..R : Len(e.rounds[r].y) # n THEN {} ELSE
               F({<<"optimal_transported_labels", \A r \in 1..R : \E p \in Perms(n) : Carries(p, r) /\ PlanCost(MM[r], p, n) = bests[r]>>,
                  <<"transport_loss", \A r \in 1..R : (r = 1 /\ e.kind # "reg") \/ Abs(e.oto[r] - (bests[r] + IF r = 1 THEN first ELSE 0)) <= 1>>,
                  <<"label_loss", \A r \in 1..R : Abs(e.tgl[r] - TgtCost(e, r)) <= 1>>,
                  <<"stops_late", \A r \in 1..R - 1 : ~settled(r)>>,
                  <<"stops_early", R = e.niter \/ settled(R)>>}))
\* general masses: marginals of the final plan, labels and objective against
\* independently computed values (scaled by 10^6)
Close(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= t
MassFails(e) ==
    IF e.err # "" THEN {"fit_raised_" \o e.err}
    ELSE F({<<"source_marginal", Close(e.rows, e.a, 5)>>, <<"target_marginal", Close(e.cols, e.b, 5)>>,
            <<"transported_labels", Close(e.y, e.yexp, 200)>>,
            <<"label_mass", Close(e.w, e.wexp, 200)>>,
            <<"objective", Abs(e.obj - e.best) <= 50>>,
            <<"trains_on_target_rows", Rng(e.fitrows) \subseteq 1..e.m>>,
            <<"target_labels_used", e.twin>>})
Failing(e) == CASE e.ev = "exchange" -> ExchangeFails(e)
                [] e.ev = "gradual" -> GradFails(e)
                [] e.ev = "joint" -> JointFails(e)
                [] e.ev = "mass" -> MassFails(e)
                [] OTHER -> {"unknown_event"}
Tags(e) == {e.ev}
    \cup (IF e.ev = "exchange" /\ e.err = "" THEN {IF Len(e.fits) - 1 = e.maxiter THEN "exchange_max_iter" ELSE "exchange_margin_empty"}
              \cup (IF \E r \in 2..Len(e.fits) - 1 : \E i \in 1..Len(e.fits[r].tgt) :
                        (e.dec[r].t[e.fits[r].tgt[i]] > 0) # (e.dec[r - 1].t[e.fits[r].tgt[i]] > 0) THEN {"exchange_withdrawal"} ELSE {})
              \cup (IF \E r \in 1..Len(e.fits) - 1 : Len(e.fits[r].tgt) = e.m THEN {"exchange_all_added"} ELSE {}) ELSE {})
    \cup (IF e.ev = "gradual" THEN {IF e.advanced THEN "gradual_advanced" ELSE "gradual_top"} ELSE {})
    \cup (IF e.ev = "joint" THEN {"joint_" \o e.kind} \cup (IF e.err = "" THEN {IF Len(e.rounds) = e.niter THEN "joint_max_iter" ELSE "joint_settled"} ELSE {}) ELSE {})

Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
=============================================================================
