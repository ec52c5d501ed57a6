--------------------------- MODULE TraceScorers ---------------------------
(* Judges calls made by the real scorers and the scores they return.         *)
EXTENDS Scorers, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
NAN == -9999999
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
Own(c, e) == Len(c.doms) = Len(c.rows) /\ \A i \in 1..Len(c.rows) : c.doms[i] = e.D[c.rows[i]]
Exactly(c, S) == Rng(c.rows) = S /\ Len(c.rows) = Cardinality(S)
Common(e) == F({<<"depends_on_target_labels", e.same>>, <<"data_modified", ~e.modified>>, <<"estimator_modified", ~e.estchanged>>,
                <<"not_repeatable", e.repeat>>})
OneCall(e, nm) == {i \in 1..Len(e.calls) : e.calls[i].m = nm}
Call(e, nm) == e.calls[CHOOSE i \in OneCall(e, nm) : TRUE]
\* ---- supervised: exactly the target rows with their true labels
Supervised(e) ==
    IF OneCall(e, "score") = {} THEN {"no_score_call"} ELSE
    LET c == Call(e, "score") IN
    F({<<"rows_scored", Exactly(c, TgtRows(e.D))>>,
       <<"labels_scored", \A i \in 1..Len(c.rows) : c.labels[i] = e.TL[c.rows[i]]>>,
       <<"domains_scored", c.doms # <<>> => Own(c, e)>>,
       <<"score_value", e.score = 1024 * e.sign * e.scripted>>})
Iw(e) ==
    IF OneCall(e, "score") = {} THEN {"no_score_call"} ELSE
    LET c == Call(e, "score") IN
    F({<<"rows_scored", Exactly(c, SrcRows(e.D))>>,
       <<"labels_scored", \A i \in 1..Len(c.rows) : c.labels[i] = e.y[c.rows[i]]>>,
       <<"domains_scored", Own(c, e)>>,
       <<"source_allowed", c.allow>>,
       <<"densities_fitted", e.k = <<>> \/ {Rng(e.fits[i]) : i \in 1..Len(e.fits)} = {SrcRows(e.D), TgtRows(e.D)}>>,
       <<"score_value", e.score = 1024 * e.sign * e.scripted>>})
    \cup (IF e.k = <<>>
          THEN F({<<"near_source_rows_weigh_more", \A i, j \in 1..Len(c.rows) : (c.rows[i] \in Rng(e.near) /\ c.rows[j] \notin Rng(e.near)) => c.w[i] > c.w[j]>>})
          ELSE F({<<"weights", Len(c.w) = Len(c.rows) /\ WeightsOK(c.w, [i \in 1..Len(c.rows) |-> e.k[c.rows[i]]], 16384)>>}))
Asked(e) == \* every query of probabilities concerns the target rows, in their own domains
    F({<<"rows_queried", \A i \in 1..Len(e.calls) : Exactly(e.calls[i], TgtRows(e.D))>>,
       <<"domains_queried", \A i \in 1..Len(e.calls) : e.calls[i].doms # <<>> => Own(e.calls[i], e)>>,
       <<"no_query", e.calls # <<>>>>})
At(T, rows) == [i \in 1..Len(rows) |-> T[rows[i]]]
Entropy(e) ==
    LET rows == Asc(TgtRows(e.D))
        P == At(e.P, rows)  LP == At(e.LP, rows)
        s8 == EntropySum8(P, LP)  cells == Len(P) * Len(P[1]) IN
    Asked(e) \cup
    (CASE e.reduction = "sum" -> F({<<"score_value", Near(e.score, e.sign * s8 * 128, 64)>>})
       [] e.reduction = "mean" -> F({<<"score_value", Near(e.score * cells, e.sign * s8 * 128, 2 * cells)>>})
       [] e.reduction = "none" -> F({<<"score_value", LET t == EntropyTerms(P, LP) IN
              Len(e.scores) = Len(P) /\ \A i \in 1..Len(P) : \A c \in 1..Len(P[1]) : Near(e.scores[i][c], e.sign * t[i][c] * 128, 2)>>}))
Snd(e) ==
    Asked(e) \cup
    (IF ~e.exact THEN F({<<"score_not_finite", e.score # NAN>>})
     ELSE LET cls == At(e.cls, Asc(TgtRows(e.D))) IN
          F({<<"score_value", Near(4 * e.score * Len(cls), e.sign * SndSum(cls), 16 * Len(cls))>>}))
Dev(e) ==
    LET feats == {i \in 1..Len(e.calls) : e.calls[i].m = "features"}
        proba == Call(e, "predict_proba")
        val == proba.rows
        nt == Cardinality(TgtRows(e.D))
        train == SrcRows(e.D) \ Rng(val)
        d == DevNum([i \in 1..Len(val) |-> e.r[val[i]]], [i \in 1..Len(val) |-> e.e[val[i]]], Cardinality(train), nt) IN
    IF OneCall(e, "predict_proba") = {} \/ OneCall(e, "dfit") = {} THEN {"no_query"} ELSE
    F({<<"held_out_rows", Rng(val) # {} /\ Rng(val) \subseteq SrcRows(e.D) /\ Cardinality(Rng(val)) = Len(val) /\ train # {}>>,
       <<"domains_queried", Own(proba, e)>>, <<"source_allowed", proba.allow>>,
       <<"features_of_rows", \A i \in feats : Rng(e.calls[i].rows) \subseteq 1..Len(e.D)>>,
       <<"domain_classifier_rows", Exactly(Call(e, "dfit"), train \cup TgtRows(e.D))>>,
       <<"domain_classifier_labels", LET c == Call(e, "dfit") IN \A i, j \in 1..Len(c.rows) :
            (c.labels[i] = c.labels[j]) <=> (IsSrc(e.D[c.rows[i]]) <=> IsSrc(e.D[c.rows[j]]))>>,
       <<"weighted_rows", Exactly(Call(e, "dproba"), Rng(val))>>,
       <<"loss_alignment", e.lossok>>,
       <<"score_value", Near(e.score * d.den, e.sign * d.num * 1024, 2 * AbsV(d.den))>>})
Mano(e) ==
    LET rows == Asc(TgtRows(e.D)) IN
    Asked(e) \cup
    (IF e.logits = <<>>
     THEN LET P == At(e.P, rows)
              s == SumSeq([i \in 1..Len(P) |-> SumSeq([c \in 1..Len(P[1]) |-> Pow(P[i][c], e.p)])])
              cells == Len(P) * Len(P[1]) IN
          F({<<"score_value", Near(e.score * cells * Pow(8, e.p), 16384 * s, 2 * cells * Pow(8, e.p))>>})
     ELSE LET L == At(e.logits, rows)
              cells == Len(L) * Len(L[1])
              a == CriterionSum(L)
              Q(f) == IF f = "taylor" THEN [i \in 1..Len(L) |-> TaylorRow(L[i])] ELSE [i \in 1..Len(L) |-> OneHotRow(L[i])]
              value(f) == PSum(Q(f), e.p)           \* scale 4096
              ok(f) == Near(e.score * cells, 4 * value(f), 8 * e.p * cells + 160) IN
          F({<<"score_value", IF a > e.threshold * cells THEN (Peaked(L) => ok("softmax"))
                              ELSE IF a + 2 * cells < e.threshold * cells THEN ok("taylor")
                              ELSE (Peaked(L) => ok("softmax")) \/ ok("taylor")>>,
             <<"score_sign", e.possign>>}))
Mix(e) ==
    LET q == Call(e, "predict")
        sc == [i \in 1..Len(e.calls) |-> e.calls[i]]
        S == {i \in 1..Len(sc) : sc[i].m = "score"}
        lab(x) == e.cls[x]
        \* a mixed row: coordinates in quarters
        Good(v, y, same) == \E i, j \in TgtRows(e.D) :
            /\ \A k \in 1..Len(e.D) : v[k] = (IF k = i THEN e.alpha ELSE 0) + (IF k = j THEN 4 - e.alpha ELSE 0)
            /\ y = (IF e.alpha >= 2 THEN lab(i) ELSE lab(j))
            /\ (same <=> (lab(i) = lab(j)))
        Kind(i) == IF \A r \in 1..Len(sc[i].vecs) : Good(sc[i].vecs[r], sc[i].labels[r], TRUE) THEN "intra"
                   ELSE IF \A r \in 1..Len(sc[i].vecs) : Good(sc[i].vecs[r], sc[i].labels[r], FALSE) THEN "inter" ELSE "neither"
        total == SumSeq([i \in 1..Len(sc) |-> IF i \in S THEN sc[i].value ELSE 0])
        col(k) == SumSeq([i \in 1..Len(sc) |-> IF i \in S THEN SumSeq([r \in 1..Len(sc[i].vecs) |-> sc[i].vecs[r][k]]) ELSE 0]) IN
    F({<<"rows_predicted", OneCall(e, "predict") # {} /\ Exactly(q, TgtRows(e.D)) /\ Own(q, e)>>,
       <<"mixed_rows", \A i \in S : Kind(i) # "neither">>,
       <<"kinds_scored", e.ice = "both" \/ \A i \in S : Kind(i) = e.ice>>,
       <<"each_kind_once", \A i, j \in S : i # j => Kind(i) # Kind(j)>>,
       <<"mixed_domains", \A i \in S : \A r \in 1..Len(sc[i].doms) : sc[i].doms[r] < 0>>,
       <<"every_row_mixed", e.ice = "both" => \A k \in TgtRows(e.D) : col(k) = 4>>,
       <<"score_value", IF S = {} THEN e.score = NAN ELSE Near(e.score * Cardinality(S), e.sign * 1024 * total, 2)>>})
Circ(e) ==
    LET P == {i \in 1..Len(e.calls) : e.calls[i].m = "predict" /\ e.calls[i].orig}
        fwd == e.calls[CHOOSE i \in P : TRUE]
        fits == {i \in 1..Len(e.calls) : e.calls[i].m = "fit"}
        backs == {i \in 1..Len(e.calls) : e.calls[i].m = "predict" /\ ~e.calls[i].orig}
        T == Asc(TgtRows(e.D))  S == Asc(SrcRows(e.D))
        tp == At(e.pred, T)
        constant == Cardinality(Rng(tp)) = 1
        sc == Call(e, "metric") IN
    IF P = {} THEN {"targets_not_predicted"} ELSE IF OneCall(e, "metric") = {} THEN {"no_metric_call"} ELSE
    F({<<"targets_predicted", Exactly(fwd, TgtRows(e.D)) /\ Own(fwd, e)>>,
       <<"metric_truth", sc.truth = At(e.y, S)>>,
       <<"score_value", e.score = 1024 * e.sign * e.scripted>>,
       <<"original_refitted", \A i \in fits : ~e.calls[i].orig>>})
    \cup (IF constant THEN F({<<"constant_prediction_scored", fits = {} => \A i \in 1..Len(sc.pred) : sc.pred[i] = tp[1]>>})
          ELSE IF Cardinality(fits) # 1 \/ backs = {} THEN {"no_backward_fit"} ELSE
          LET f == e.calls[CHOOSE i \in fits : TRUE]
              b == e.calls[CHOOSE i \in backs : TRUE]
              bd(r) == f.doms[CHOOSE i \in 1..Len(f.rows) : f.rows[i] = r]
              bl(r) == f.labels[CHOOSE i \in 1..Len(f.rows) : f.rows[i] = r]
              fl == [i \in 1..Len(T) |-> bl(T[i])] IN
          F({<<"backward_fit_rows", Exactly(f, 1..Len(e.D))>>,
             <<"backward_roles", Swapped(e.D, [r \in 1..Len(e.D) |-> bd(r)])>>,
             <<"backward_source_masked", \A i \in 1..Len(S) : bl(S[i]) = e.maskv>>,
             <<"backward_labels", IF e.reg THEN fl = tp ELSE Renaming(tp, fl) /\ e.maskv \notin Rng(fl)>>,
             <<"backward_predict_rows", Exactly(b, SrcRows(e.D))>>,
             <<"backward_predict_roles", \A i \in 1..Len(b.rows) : b.doms[i] = bd(b.rows[i])>>,
             \* what the copy answered, back in the original labels
             <<"metric_predictions", Len(sc.pred) = Len(S) /\ \A i \in 1..Len(S) :
                 LET ans == b.out[CHOOSE j \in 1..Len(b.rows) : b.rows[j] = S[i]] IN
                 IF e.reg THEN sc.pred[i] = ans ELSE \E j \in 1..Len(T) : fl[j] = ans /\ tp[j] = sc.pred[i]>>}))
Real(e) == F({<<"real_score_missing", e.score # NAN>>})
Failing(e) ==
    IF e.ev = "strscore" THEN (IF e.err = "" THEN {} ELSE {"string_scoring_raised_" \o e.err})
    ELSE IF e.refuse THEN (IF e.err = "ValueError" THEN {} ELSE {"unmasked_labels_" \o e.err})
    ELSE IF e.err # "" THEN {"raised_" \o e.err}
    ELSE Common(e) \cup
    (CASE e.ev = "supervised" -> Supervised(e)
       [] e.ev = "iw" -> Iw(e)
       [] e.ev = "entropy" -> Entropy(e)
       [] e.ev = "snd" -> Snd(e)
       [] e.ev = "dev" -> Dev(e)
       [] e.ev = "mano" -> Mano(e)
       [] e.ev = "mixval" -> Mix(e)
       [] e.ev = "circ" -> Circ(e)
       [] e.ev = "real" -> Real(e)
       [] OTHER -> {"unknown_event"})
Tags(e) == {e.ev} \cup (IF e.ev = "circ" /\ ~e.refuse /\ e.err = "" THEN {IF \E i \in 1..Len(e.calls) : e.calls[i].m = "fit" THEN "circ_backward" ELSE "circ_constant"} ELSE {})

Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
=============================================================================
