--------------------------- MODULE TraceSubsample ---------------------------
(* Judges recorded subsampling: direct fit_transform, prediction, pipelines.  *)
EXTENDS Subsample, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
GroupOf(e) == CASE e.cls = "plain" -> [i \in 1..e.n |-> 1]
                [] e.cls = "domain" -> e.d
                [] e.cls = "stratified" -> [i \in 1..e.n |-> e.d[i] * 1000 + e.y[i]]
\* e.rows: row numbers received; carried[k]: the values that came along
Carried(e, got, want) == Len(got) = Len(e.rows) /\ \A i \in 1..Len(got) : got[i] = want[e.rows[i]]
DirectFails(e) ==
    IF ~Admissible(e.z, e.n) THEN (IF e.err = "ValueError" THEN {} ELSE {"empty_size_" \o (IF e.err = "" THEN "accepted" ELSE e.err)})
    ELSE IF e.err # "" THEN {"raised_" \o e.err}
    ELSE F({<<"row_out_of_range", Rng(e.rows) \subseteq 1..e.n>>,
            <<"repeated_row", Cardinality(Rng(e.rows)) = Len(e.rows)>>,
            <<"number_of_rows", Len(e.rows) = Keep(e.z, e.n)>>,
            <<"share_of_group", Rng(e.rows) \subseteq 1..e.n => (e.cls = "plain" \/ Fair(Rng(e.rows), GroupOf(e), Len(e.rows)))>>,
            <<"features_of_row", e.xok>>,
            <<"label_of_row", Carried(e, e.yout, e.y)>>,
            <<"domain_of_row", Carried(e, e.dout, e.d)>>,
            <<"weight_of_row", IF e.weighted THEN Carried(e, e.wout, e.w) ELSE e.wout = <<>> >>,
            <<"transform_changes_rows", e.trans>>,
            <<"not_reproducible", e.same>>, <<"input_modified", ~e.modified>>, <<"global_random_state", e.grng>>})
PipeFails(e) ==
    IF e.err # "" THEN {"raised_" \o e.err}
    ELSE F({<<"repeated_row", Cardinality(Rng(e.rows)) = Len(e.rows)>>,
            <<"number_of_rows", Len(e.rows) = Keep(e.z, e.n)>>,
            <<"label_of_row", Carried(e, e.yout, e.ymask)>>,
            <<"domain_of_row", Carried(e, e.dout, e.d)>>,
            <<"weight_of_row", IF e.weighted THEN Carried(e, e.wout, e.w) ELSE e.wout = <<>> >>,
            <<"predicted_rows", e.pred = [i \in 1..e.n |-> i]>>})
Failing(e) == CASE e.ev = "direct" -> DirectFails(e)
                [] e.ev = "pipe" -> PipeFails(e)
                [] OTHER -> {"unknown_event"}
Tags(e) == {e.ev \o "_" \o e.cls, IF All(e.z, e.n) THEN "keeps_all" ELSE "keeps_some"}

Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
=============================================================================
