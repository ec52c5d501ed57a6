--------------------------- MODULE TraceSelection ---------------------------
(* Judges recorded cross-validations and parameter searches.                    *)
EXTENDS Selection, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
Rng(s) == {s[i] : i \in DOMAIN s}
\* e: sel, hide, D, y (given labels), yt (true labels), cell, cands, folds [tr, te], fits [bias, ids, ys],
\*    asks [bias, ids, rows], scores[m][c][f] in 1/100000 with metrics e.metrics, best, refit, final (answers on all rows)
Sets(e, tr) == FitSets(e.sel, e.D, e.y, e.hide, tr)
For(e, tr, r) == FitSet(e.sel, e.D, e.y, e.hide, tr, r)
All(e) == DOMAIN e.D
Label(e, c, tr, r) == Level(e.cell, c, For(e, tr, r), r) % 3
Vague(e, c, tr, r) == Level(e.cell, c, For(e, tr, r), r) % 2
Tgts(e, S) == {i \in S : ~IsSrc(e.D[i])}
\* 100000 times the score of candidate c, trained on tr, on rows te
Worth(e, m, c, tr, te) ==
    CASE m = "own" -> LET K == {r \in te : e.y[r] # -1} IN (100000 * Cardinality({r \in K : Label(e, c, tr, r) = e.y[r]})) \div Cardinality(K)
      [] m = "supervised" -> LET T == Tgts(e, te) IN (100000 * Cardinality({r \in T : Label(e, c, tr, r) = e.yt[r]})) \div Cardinality(T)
      [] OTHER -> LET T == Tgts(e, te) IN -((69315 * Cardinality({r \in T : Vague(e, c, tr, r) = 1})) \div (3 * Cardinality(T)))
WantedFits(e) == {<<c, S>> : c \in Rng(e.cands), S \in UNION {Sets(e, Rng(f.tr)) : f \in Rng(e.folds)}}
RefitSets(e) == IF e.refit THEN Sets(e, All(e)) ELSE {}
Got(e) == {<<f.bias, Rng(f.ids)>> : f \in Rng(e.fits)}
Count(e) == Len(e.cands) * SumSet([k \in DOMAIN e.folds |-> Cardinality(Sets(e, Rng(e.folds[k].tr)))], DOMAIN e.folds) + Cardinality(RefitSets(e))
Mean(e, c) == SumSet([f \in DOMAIN e.folds |-> e.scores[1][c][f]], DOMAIN e.folds)
SelFails(e) ==
    IF e.err # "" THEN {"search_raised_" \o e.err}
    ELSE F({<<"inputs_changed", ~e.changed>>, <<"template_fitted", ~e.touched>>,
            <<"a_fold_is_not_fitted_on_its_rows", Got(e) = WantedFits(e) \cup (IF e.refit THEN {<<e.best, S>> : S \in RefitSets(e)} ELSE {})>>,
            <<"number_of_fits", Len(e.fits) = Count(e)>>,
            <<"training_labels", \A f \in Rng(e.fits) : Len(f.ids) = Len(f.ys) /\ Cardinality(Rng(f.ids)) = Len(f.ids) /\ \A i \in DOMAIN f.ids : f.ys[i] = e.y[f.ids[i]]>>,
            <<"training_domains", \A f \in Rng(e.fits) : f.ds = <<>> \/ \A i \in DOMAIN f.ids : f.ds[i] = e.D[f.ids[i]]>>,
            <<"asked_about_other_rows", \A a \in Rng(e.asks) : \E f \in Rng(e.folds) :
                 /\ \E S \in Sets(e, Rng(f.tr)) : Rng(a.ids) = S
                 /\ (Rng(a.rows) \subseteq Rng(f.te) \/ (e.train /\ Rng(a.rows) \subseteq Rng(f.tr)))>>,
            <<"score_of_a_fold", \A m \in DOMAIN e.metrics, c \in DOMAIN e.cands, f \in DOMAIN e.folds :
                 Abs(e.scores[m][c][f] - Worth(e, e.metrics[m], e.cands[c], Rng(e.folds[f].tr), Rng(e.folds[f].te))) <= 4>>,
            <<"training_score_of_a_fold", ~e.train \/ \A m \in DOMAIN e.metrics, c \in DOMAIN e.cands, f \in DOMAIN e.folds :
                 Abs(e.trscores[m][c][f] - Worth(e, e.metrics[m], e.cands[c], Rng(e.folds[f].tr), Rng(e.folds[f].tr))) <= 4>>,
            <<"a_better_candidate_exists", ~e.search \/ \E k \in DOMAIN e.cands : e.cands[k] = e.best /\ \A c \in DOMAIN e.cands : Mean(e, c) <= Mean(e, k) + 8 * Len(e.folds)>>,
            <<"final_answers", ~e.refit \/ \A r \in All(e) : e.final[r] = Label(e, e.best, All(e), r)>>,
            <<"final_score", ~e.refit \/ Abs(e.fscore - Worth(e, e.metrics[1], e.best, All(e), All(e))) <= 4>>})
Failing(e) == SelFails(e)
Tags(e) == {e.sel, e.split} \cup {"metric_" \o m : m \in Rng(e.metrics)} \cup (IF e.refit THEN {"refit"} ELSE {}) \cup (IF e.threads THEN {"threads"} ELSE {})

Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
=============================================================================
