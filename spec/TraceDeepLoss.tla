--------------------------- MODULE TraceDeepLoss ----------------------------
EXTENDS DeepLoss, Json, IOUtils
LG == INSTANCE Scorers
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
Near(a, b, t) == Abs(a - b) <= t
RelNear(a, b) == Near(a, b, 3 + Abs(a) \div 4000)
Rows(e) == [i \in DOMAIN e.rows |-> {e.rows[i][k] : k \in DOMAIN e.rows[i]}]
Set(s) == {s[i] : i \in DOMAIN s}
\* e.v: the value in the unit of the case
ExactFails(e) == IF e.err # "" THEN {"raised_" \o e.err \o "_" \o e.loss} ELSE
    CASE e.loss = "coral" -> F({<<"coral_value", LET w == CoralN(e.X, e.Y, e.raw) IN Near(e.v, w, 2 + w \div 20000)>>})
      [] e.loss = "dan" -> F({<<"dan_value", LET w == MmdN(e.X, e.Y, e.rates, e.P) IN Near(e.v, w, 2 + e.scale \div 5000)>>})
      [] e.loss = "cdd" -> F({<<"cdd_value", LET w == CddN(e.X, e.lab, e.Y, e.rates, e.P, e.least, e.U) IN Near(e.v, w, 2 + e.scale \div 5000)>>})
      [] e.loss = "jdot" -> F({<<"jdot_value", LET w == JdotN(e.X, e.lab, e.Y, e.pred, e.rd, e.rc, e.ws, e.wt) IN Near(e.v, 100 * w, 3 + w \div 50)>>})
      [] e.loss = "mcc" -> F({<<"mcc_value", Near(e.v, Sum(MccTerms(Rows(e), e.K, 10000)), e.K + 4)>>})
      [] e.loss = "gda" -> F({<<"gda_value", Near(e.v, 2000 * Abs(Abs(e.X[1] - e.X[2]) - Abs(e.Y[1] - e.Y[2])), 4)>>})
      \* e.k[i][c]: -log2 of the probability given to class c by row i of the batch
      [] e.loss = "nap" -> F({<<"nap_value", (\E i \in DOMAIN e.X : ~Clear(e.X[i], e.bank, e.outs, Set(e.out), e.K)) \/
            LET S(i) == Nearest(e.X[i], e.bank, Set(e.out), e.K)
                w(i) == Votes(S(i), e.outs, Winner(S(i), e.outs))
                a == Sum([i \in DOMAIN e.X |-> w(i)])
                b == Sum([i \in DOMAIN e.X |-> w(i) * e.k[i][Winner(S(i), e.outs)]]) IN Near(e.v * a, 10000 * b, 4 * a)>>})
      \* a, b: -log2 of what the classifier gives the right side
      [] e.loss = "dann" -> F({<<"domain_loss_value", Near(e.v * Len(e.a) * Len(e.b), 10000 * (Sum(e.a) * Len(e.b) + Sum(e.b) * Len(e.a)), 4 * Len(e.a) * Len(e.b))>>})
      \* a: -log2 of the probability of the pseudo label per source row, b: exponent per target row; C classes
      [] e.loss = "mdd" -> F({<<"mdd_value",
            LET q(k) == LG!Log2(10 * e.C * Pow2(k) - 9 * e.C - Pow2(k), 10 * e.C * Pow2(k))
                m == Len(e.b)  n == Len(e.a) IN
            Near(e.v * n * m, e.gamma * 4096 * Sum(e.a) * m - Sum([i \in DOMAIN e.b |-> q(e.b[i])]) * n, 12 * n * m)>>})
      [] OTHER -> {"unknown_loss"}
LawFails(e) == IF e.err # "" THEN {"raised_" \o e.err \o "_" \o e.law \o "_" \o e.loss} ELSE
    CASE e.law \in {"order", "symmetric", "same_form", "moved", "parts", "discarded", "weights_one"} -> F({<<e.law \o "_" \o e.loss, RelNear(e.a, e.b)>>})
      [] e.law = "zero" -> F({<<"zero_" \o e.loss, Abs(e.a) <= e.tol>>})
      [] e.law = "positive" -> F({<<"negative_" \o e.loss, e.a >= -e.tol>>})
      [] e.law = "apart" -> F({<<"no_discrepancy_seen_" \o e.loss, e.a > e.tol>>})
      [] e.law = "gradient" -> F({<<"no_gradient_to_source_" \o e.loss, ~e.needs[1] \/ e.got[1]>>, <<"no_gradient_to_target_" \o e.loss, ~e.needs[2] \/ e.got[2]>>,
                                  <<"batch_changed_" \o e.loss, ~e.changed>>})
      [] OTHER -> {"unknown_law"}
\* the domain classifier: outs[i] what row i gets in millionths, g what goes back to the rows, g0 the same with a reversal factor of -1
CriticFails(e) == IF e.err # "" THEN {"raised_" \o e.err \o "_critic"} ELSE
    F({<<"every_row_looks_the_same", Cardinality({e.outs[i] : i \in DOMAIN e.outs}) > 1>>,
       <<"not_a_probability", \A i \in DOMAIN e.outs : \A k \in DOMAIN e.outs[i] : e.outs[i][k] \in 0..1000000>>,
       <<"probabilities_do_not_sum_to_one", e.K = 1 \/ \A i \in DOMAIN e.outs : Near(Sum(e.outs[i]), 1000000, 10)>>,
       <<"gradient_not_reversed", \A i \in DOMAIN e.g : Near(e.g[i], -e.alpha * e.g0[i], 5 + Abs(e.alpha * e.g0[i]) \div 1000)>>,
       <<"features_out_of_reach", e.base>>})
\* a: the criterion of a method on a batch, b: what it stands for given the options of the method
OptionFails(e) == IF e.err # "" THEN {"raised_" \o e.err \o "_option_" \o e.loss} ELSE F({<<"option_ignored_" \o e.loss, RelNear(e.a, e.b)>>})
\* f, y: the features and the outputs of the rows (whole numbers); got: what the domain classifier is shown (ten thousandths)
Outer(f, y) == [k \in 1..(Len(f) * Len(y)) |-> y[(k - 1) \div Len(f) + 1] * f[((k - 1) % Len(f)) + 1]]
CondmapFails(e) == IF e.err # "" THEN {"raised_" \o e.err \o "_condmap"} ELSE
    LET small == e.d * e.K <= e.room  width == IF small THEN e.d * e.K ELSE e.room IN
    F({<<"width_of_map", \A i \in DOMAIN e.got : Len(e.got[i]) = width>>,
       <<"rows_of_map", Len(e.got) = Len(e.f)>>,
       <<"not_all_products", ~small \/ \A i \in DOMAIN e.got : Len(e.got[i]) = width => e.got[i] = [k \in 1..width |-> 10000 * Outer(e.f[i], e.y[i])[k]]>>,
       <<"map_not_settled_by_the_seed", e.got = e.again>>,
       <<"map_of_a_row_depends_on_others", e.alone = <<e.got[1]>> >>,
       <<"map_not_bilinear", Len(e.other) = Len(e.got) /\ \A i \in DOMAIN e.got : \A k \in DOMAIN e.got[i] : Near(e.other[i][k], -2 * e.got[i][k], 4 + Abs(e.got[i][k]) \div 1000)>>,
       <<"map_forgets", \A i \in DOMAIN e.got : ((\E a \in DOMAIN e.f[i] : e.f[i][a] # 0) /\ (\E a \in DOMAIN e.y[i] : e.y[i][a] # 0)) => \E k \in DOMAIN e.got[i] : e.got[i][k] # 0>>})
Failing(e) == CASE e.ev = "exact" -> ExactFails(e)
                [] e.ev = "law" -> LawFails(e)
                [] e.ev = "critic" -> CriticFails(e)
                [] e.ev = "option" -> OptionFails(e)
                [] e.ev = "condmap" -> CondmapFails(e)
                [] e.ev = "refuse" -> F({<<"accepted_" \o e.what, e.err = "ValueError">>})
                [] OTHER -> {"unknown_event"}
Tags(e) == CASE e.ev = "exact" -> {"exact_" \o e.loss} [] e.ev = "law" -> {e.law \o "_" \o e.loss} [] e.ev = "critic" -> {"critic_" \o e.net} [] e.ev = "option" -> {"option_" \o e.loss}
                [] e.ev = "condmap" -> {IF e.d * e.K > e.room THEN "mixtures" ELSE IF e.d * e.K = e.room THEN "just_room" ELSE "products"} [] OTHER -> {"refuse"}

Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
=============================================================================
