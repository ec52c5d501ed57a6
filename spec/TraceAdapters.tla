--------------------------- MODULE TraceAdapters ---------------------------
(* Judges calls of real adapters (and pipelines built on them).               *)
EXTENDS Adapters, Json, IOUtils
NAN == -9999999
BIG == 9999998
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}

GateFails(e) ==
    IF Refused(e.D, e.allow)
    THEN (IF e.err = "ValueError" THEN {} ELSE IF e.err = "" THEN {"source_rows_accepted"} ELSE {"refused_with_" \o e.err})
    ELSE IF e.err # "" THEN {"admissible_rows_refused_" \o e.err}
    ELSE F({<<"one_output_per_row", e.nout = Len(e.D)>>})

RowsSame(A, B, e) == IF e.sign THEN CloseUpToSign(A, B, e.tol) ELSE CloseRows(A, B, e.tol)
\* b was computed on the rows of a at e.pos (a permutation, or the target rows)
RowsFails(e) ==
    IF e.err # "" THEN {e.what \o "_raised_" \o e.err}
    ELSE IF Len(e.a) # Len(e.D) THEN {"one_output_per_row"}
    ELSE IF Len(e.b) # Len(e.pos) THEN {"one_output_per_row"}
    ELSE IF e.what = "target_only" /\ e.pos # TgtPos(e.D) THEN {"driver_positions"}
    ELSE F({<<e.what \o "_differs", RowsSame(Permuted(e.a, e.pos), e.b, e)>>})

TargetsFails(e) ==
    IF e.err # "" THEN {"transform_raised_" \o e.err}
    ELSE IF Len(e.out) # Len(e.D) THEN {"one_output_per_row"}
    ELSE F({<<"target_row_moved", \A i \in 1..Len(e.D) : IsTgt(e.D[i]) => e.out[i] = e.X[i]>>})

WeightFails(e) ==
    IF e.err # "" THEN {"weights_raised_" \o e.err}
    ELSE IF Len(e.w) # Len(e.D) THEN {"one_weight_per_row"}
    ELSE F({<<"weight_not_finite", \A i \in 1..Len(e.w) : e.w[i] # NAN /\ AbsI(e.w[i]) # BIG>>,
            <<"weight_negative", \A i \in 1..Len(e.w) : e.w[i] >= 0 /\ ~e.neg[i]>>,
            <<"target_weight_not_zero", \A i \in 1..Len(e.w) : IsTgt(e.D[i]) => e.w[i] = 0>>,
            <<"features_changed", e.xsame>>,
            <<"far_cluster_preferred", (e.near = <<>>) \/
                (Len(e.far) * SumOver(Rng(e.near), LAMBDA i : e.w[i])
                   > Len(e.near) * SumOver(Rng(e.far), LAMBDA i : e.w[i]))>>})

LabelFails(e) ==
    IF e.err # "" THEN {"labels_raised_" \o e.err}
    ELSE IF Len(e.out) # Len(e.D) THEN {"one_label_per_row"}
    ELSE LET S == {e.y[i] : i \in {j \in 1..Len(e.D) : IsSrc(e.D[j])}}
             mask == IF e.reg THEN NAN ELSE -1
             T == {i \in 1..Len(e.D) : IsTgt(e.D[i])} IN
         F({<<"source_row_not_masked", \A i \in 1..Len(e.D) : IsSrc(e.D[i]) => e.out[i] = mask>>,
            <<"label_not_a_source_label", ~e.reg => \A i \in T : e.out[i] \in S>>,
            <<"label_outside_source_range", e.reg => \A i \in T : /\ e.out[i] # NAN
                  /\ (\E s \in S : s <= e.out[i] + e.tol)
                  /\ (\E r \in S : r >= e.out[i] - e.tol)>>,
            <<"features_changed", e.xsame>>,
            <<"domain_output", e.dsame>>,
            <<"cluster_label", (e.cluster = <<>>) \/
                \A i \in T : \A j \in 1..Len(e.D) :
                    (IsSrc(e.D[j]) /\ e.cluster[j] = e.cluster[i]) => e.out[i] = e.y[j]>>})

\* exact answers on the line
LineFails(e) ==
    IF e.err # "" THEN {e.what \o "_raised_" \o e.err}
    ELSE IF Len(e.out) # Len(e.D) THEN {"one_output_per_row"}
    ELSE LET S == {i \in 1..Len(e.D) : IsSrc(e.D[i])}
             T == {i \in 1..Len(e.D) : IsTgt(e.D[i])} IN
    CASE e.what = "map" ->
           F({<<"barycentric_image", \A s \in S : MappedOK(e.x, e.D, e.out, s, e.scale, e.tol)>>,
              <<"target_row_moved", \A t \in T : e.out[t] = e.x[t] * e.scale>>})
      [] e.what = "propagate" ->
           F({<<"propagated_value", \A t \in T : PropagatedOK(e.x, e.D, e.y, e.out, t, e.scale, e.tol)>>})
      [] e.what = "classes" ->
           F({<<"propagated_class", \A t \in T :
                  LET M == MatchedSrc(e.x, e.D, t)  votes(c) == Cardinality({r \in M : e.y[r] = c}) IN
                  \A s \in M : (\A r \in M : e.y[r] # e.y[s] => votes(e.y[r]) < votes(e.y[s])) => e.out[t] = e.y[s]>>})
      [] e.what = "neighbors" ->
           F({<<"neighbor_weight", \A i \in 1..Len(e.D) : e.out[i] = e.scale * NNWeight(e.x, e.D, i, e.lap)>>})
      [] e.what = "affine" ->   \* sources sent onto the targets' mean and spread (spread ratio e.num/e.den)
           LET ns == Cardinality(S)  nt == Cardinality(T)
               ms == SumOver(S, LAMBDA i : e.x[i])  mt == SumOver(T, LAMBDA i : e.x[i]) IN
           F({<<"affine_image", \A s \in S :
                  \* out = (x - ms/ns) * num/den + (recentred ? 0 : mt/nt)
                  LET lhs == e.out[s] * ns * nt * e.den
                      rhs == ((e.x[s] * ns - ms) * nt * e.num + (IF e.centred THEN 0 ELSE mt * ns * e.den)) * e.scale IN
                  Close(lhs, rhs, e.tol * ns * nt * e.den)>>,
              <<"affine_target", \A t \in T :
                  IF e.centred THEN Close(e.out[t] * nt, (e.x[t] * nt - mt) * e.scale, e.tol * nt)
                  ELSE e.out[t] = e.x[t] * e.scale>>})
      [] OTHER -> {"unknown_line"}

Failing(e) == CASE e.ev = "gate" -> GateFails(e)
                [] e.ev = "rows" -> RowsFails(e)
                [] e.ev = "targets" -> TargetsFails(e)
                [] e.ev = "weights" -> WeightFails(e)
                [] e.ev = "labels" -> LabelFails(e)
                [] e.ev = "line" -> LineFails(e)
                [] OTHER -> {"unknown_event"}
Tags(e) == {e.ev \o "_" \o e.name} \cup (IF e.ev = "gate" THEN {IF Refused(e.D, e.allow) THEN "gate_refuse" ELSE "gate_accept"}
                                          ELSE IF e.ev \in {"rows", "line"} THEN {e.ev \o "_" \o e.what} ELSE {})

Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
=============================================================================
