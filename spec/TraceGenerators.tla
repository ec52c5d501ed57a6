-------------------------- MODULE TraceGenerators ---------------------------
EXTENDS Generators, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
\* e.sides: [name, source, n (asked), rows, ny, y (classes, or <<>> for regression), finite, width]
Grouped(y) == \A i, j \in DOMAIN y : i < j => y[i] <= y[j]
SideFails(q, s) == F({
    <<"number_of_samples", s.rows = SizeOf(q, s.n)>>,
    <<"labels_and_samples_differ_in_number", s.ny = s.rows>>,
    <<"features_finite", s.finite>>,
    <<"feature_width", s.width = q.width>>,
    <<"label_kind", IF q.label = "regression" THEN s.real ELSE s.y # <<>> \/ s.rows = 0>>,
    <<"label_set", q.label = "regression" \/ Rng(s.y) \subseteq Allowed(q)>>,
    <<"class_sizes", q.label = "regression" \/ LET c == Counts(q, s.n, s.source) IN c = <<>> \/ \A v \in DOMAIN c : CountOf(s.y, v) = c[v]>>,
    <<"target_share", ~(q.gen = "shifted" /\ q.shift = "target_shift" /\ ~s.source /\ q.label # "regression")
                      \/ CountOf(s.y, 0) = FirstShare(q, s.n)>>})
Want(q) == [k \in 1..Len(q.names) |-> q.names[k]]
GenFails(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE
    LET q == e.q  S == e.sides IN
    (IF [k \in DOMAIN S |-> S[k].name] # Want(q) THEN {"domains"}
     ELSE UNION {SideFails(q, S[k]) : k \in DOMAIN S}) \cup F({
    <<"domain_labels_of_samples", e.dom = Cat([k \in DOMAIN S |-> Rep((IF S[k].source THEN k ELSE -k), S[k].rows)])>>,
    <<"packed_forms_disagree", e.agree>>,
    <<"global_random_state_changed", e.glob>>, <<"arguments_changed", ~e.caller>>,
    <<"same_features_for_all_rows", e.distinct>>})
\* ---------------------------------------------------------------- two or three calls
LawFails(e) == IF e.err # "" THEN {"raised_" \o e.err \o "_" \o e.law} ELSE
    CASE e.law \in {"repeat", "repeat_object", "source_untouched", "labels_same", "only_first_changes", "only_second_changes"} -> F({<<e.law, e.a = e.b>>})
      [] e.law \in {"seed_matters", "object_advances"} -> F({<<e.law, e.a # e.b>>})
      [] e.law = "affine" -> F({<<"conditional_shift_not_affine", Affine(e.x, e.z, e.num, e.den, e.add, 3)>>, <<"conditional_shift_labels", e.a = e.b>>})
      [] e.law = "noise" -> F({<<"noise_not_linear", Linear(e.x, e.one, e.z, e.num, e.den, 3)>>, <<"noise_changes_labels", e.a = e.b>>,
                               <<"noise_missing", e.num = 0 \/ e.x # e.z>>})
      \* big: 0 no side noisy, 1 the source, 2 the target, 3 both
      [] e.law = "noise_side" -> F({<<"noise_missing_in_a_domain", \A k \in DOMAIN e.side : (e.big = 3 \/ e.big = e.side[k]) => e.far[k] = 1>>,
                                    <<"noise_of_the_other_side", \A k \in DOMAIN e.side : ~(e.big = 3 \/ e.big = e.side[k]) => e.far[k] = 0>>})
      [] e.law = "translate" -> F({<<"shift_not_a_translation", \A i \in DOMAIN e.x : \A k \in DOMAIN e.x[i] : Near(e.z[i][k], e.x[i][k] + e.by[k], 2)>>,
                                   <<"labels_differ_between_sides", e.a = e.b>>})
      [] e.law = "rule" -> F({<<"source_labels_against_rule", Decreasing(e.rs, e.ys, e.tol)>>, <<"target_labels_against_rule", Decreasing(e.rt, e.yt, e.tol)>>,
                              <<"sides_follow_different_rules", Decreasing(e.rs \o e.rt, e.ys \o e.yt, e.tol)>>})
      [] e.law = "standard" -> F({<<"mean_not_zero", \A k \in DOMAIN e.mean : Near(e.mean[k], 0, 2)>>, <<"deviation_not_one", \A k \in DOMAIN e.std : Near(e.std[k], 1000, 2)>>,
                                  <<"standardized_data_are_other_data", \A k \in DOMAIN e.corr : Near(e.corr[k], 1000, 2)>>,
                                  <<"standardizing_changes_labels", e.a = e.b>>})
      [] e.law = "closer" -> F({<<"covariate_shift_not_towards_centre", e.dt < e.ds>>})
      \* clusters of two classes: moving along the moon moves class 1 the other way
      [] e.law = "moon" -> F({<<"cluster_not_moved_as_a_block", \A c \in {1, 2} : \A i \in DOMAIN e.move[c] : \A k \in {1, 2} : Near(e.move[c][i][k], e.move[c][1][k], 3)>>,
                              <<"moons_not_opposed", \A k \in {1, 2} : Near(e.move[1][1][k], -e.move[2][1][k], 3)>>,
                              <<"position_direction", e.later => e.move[1][1][1] < 0>>})
      [] e.law = "frequency" -> F({<<"frequency_shift", \A c \in DOMAIN e.x : Near(e.z[c] - e.x[c], e.num, e.tol)>>})
      [] OTHER -> {"unknown_law"}
Failing(e) == CASE e.ev = "gen" -> GenFails(e)
                [] e.ev = "law" -> LawFails(e)
                [] e.ev = "digits" -> IF e.err # "" THEN {"raised_" \o e.err} ELSE F({
                        <<"number_of_digits", \A k \in {1, 2} : Len(e.sides[k].ids) = (e.num * Cardinality({i \in DOMAIN e.stored[k] : e.stored[k][i] < e.classes})) \div e.den>>,
                        <<"digit_twice", \A k \in {1, 2} : Cardinality(Rng(e.sides[k].ids)) = Len(e.sides[k].ids)>>,
                        <<"digit_with_other_label", \A k \in {1, 2} : \A i \in DOMAIN e.sides[k].ids : e.sides[k].ids[i] \in DOMAIN e.stored[k] /\ e.sides[k].y[i] = e.stored[k][e.sides[k].ids[i]]>>,
                        <<"digit_class_left_out", \A k \in {1, 2} : \A i \in DOMAIN e.sides[k].y : e.sides[k].y[i] < e.classes>>,
                        <<"digit_domains", e.names = <<"mnist", "usps">> /\ e.dom = Rep(1, Len(e.sides[1].ids)) \o Rep(-2, Len(e.sides[2].ids))>>,
                        <<"digit_split", e.train = e.asked>>, <<"digits_not_repeatable", e.again>>, <<"global_random_state_changed", e.glob>>})
                [] OTHER -> {"unknown_event"}
Tags(e) == CASE e.ev = "gen" -> {e.q.gen, "label_" \o e.q.label, e.q.shift}
             [] e.ev = "law" -> {"law_" \o e.law, "law_" \o e.law \o "_" \o e.gen}
             [] OTHER -> {e.ev}
Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
=============================================================================
