--------------------------- MODULE TraceDeepData ----------------------------
EXTENDS DeepData, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen, reg
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
\* ---------------------------------------------------------------- C24
\* a reading of one data set: what arrays, items and dictionary say
ReadFails(a, q, who) == IF q.err # "" THEN {who \o "_reading_raised_" \o q.err} ELSE F({
    <<who \o "_arrays", q.arr = a.rows>>,
    <<who \o "_items", q.items = a.rows>>,
    <<who \o "_dictionary", q.dct = a.rows>>,
    <<who \o "_weights_presence", q.hw = a.hw>>,
    <<who \o "_length", q.n = Len(a.rows)>>,
    <<who \o "_numbering", q.sidx = [i \in DOMAIN a.rows |-> Within(a.rows, i)] /\ q.iidx = q.sidx>>,
    <<who \o "_domains", Rng(q.domains) = Domains(a) /\ Len(q.domains) = Cardinality(Domains(a))>>,
    <<who \o "_labelled", q.has = [i \in DOMAIN a.rows |-> a.rows[i].y # NoLabel]>>})
Dst(e) == IF e.op \in {"mergein", "add_weights", "remove_weights"} THEN e.a ELSE e.r
OpFails(e) ==
    LET ref == Refused(reg, e)  want == IF ref THEN reg ELSE Apply(reg, e) IN
    (IF ref THEN (IF e.err = "" THEN {"accepted_inconsistent_" \o e.op} ELSE {})
     ELSE IF e.err # "" THEN {"raised_" \o e.err \o "_in_" \o e.op} ELSE {})
    \cup UNION {LET q == e.reads[k] IN
                IF (e.err # "") # ref /\ q.h = Dst(e) THEN {}      \* already reported
                ELSE ReadFails(want[q.h], q, IF ref /\ q.h = Dst(e) THEN "after_refused_" \o e.op
                                             ELSE IF q.h = Dst(e) THEN e.op ELSE "bystander_of_" \o e.op) : k \in DOMAIN e.reads}
    \cup (IF e.op # "split" \/ e.err # "" THEN {} ELSE
          F({<<"split_domains", Rng([k \in DOMAIN e.parts |-> e.parts[k].dom]) = Domains(reg[e.a]) /\ Len(e.parts) = Cardinality(Domains(reg[e.a]))>>})
          \cup UNION {ReadFails(Select(reg[e.a], [on |-> "domain", v |-> e.parts[k].dom], e.keep), e.parts[k].read, "split_part") : k \in DOMAIN e.parts})
    \cup F({<<"caller_arrays_modified", ~e.caller>>})
\* ---------------------------------------------------------------- C23
BatchesOK(out, bs, size) == /\ \A k \in DOMAIN bs : Len(bs[k]) = size
                            /\ \A i \in DOMAIN out : bs[1 + ((i - 1) \div size)][1 + ((i - 1) % size)] = out[i]
                            /\ Len(out) = Len(bs) * size
RECURSIVE Cat(_)
Cat(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs) \o Cat(Tail(bs))
SamplerFails(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE
    LET bal == e.ev = "balanced"
        size == IF bal THEN 2 * e.b ELSE e.b
        OK(o) == IF bal THEN Balanced(o, e.D, e.b, e.pol) ELSE Only(o, e.D, e.b, e.side)
        Pre(o) == IF bal THEN BalancedPrefix(o, e.D) ELSE OnlyPrefix(o, e.D, e.side)
        total == IF bal THEN 2 * PerSide(e.D, e.b, e.pol) ELSE Whole(Count(e.D, e.side), e.b) IN
    F({<<"declared_length", e.len = total>>,
       <<"declared_batches", e.nbatches = total \div size>>,
       <<"number_of_rows", \A k \in DOMAIN e.epochs : Len(e.epochs[k]) = total>>,
       <<"rows_or_repetition", \A k \in DOMAIN e.epochs : Pre(e.epochs[k])>>,
       <<"loader_rows", \A k \in DOMAIN e.batches : OK(Cat(e.batches[k]))>>,
       <<"whole_batches", \A k \in DOMAIN e.batches : \A j \in DOMAIN e.batches[k] : Len(e.batches[k][j]) = size>>,
       <<"batch_mixture", \A k \in DOMAIN e.batches : \A j \in DOMAIN e.batches[k] :
            \A s \in {1, 2} : LET c == Cardinality({i \in DOMAIN e.batches[k][j] : Side(e.D[e.batches[k][j][i]]) = s}) IN
                c = (IF bal THEN e.b ELSE IF s = e.side THEN e.b ELSE 0)>>,
       <<"row_contents", e.contents>>})
\* ---------------------------------------------------------------- C26
Abs(z) == IF z < 0 THEN -z ELSE z
RECURSIVE SumW(_, _, _)
SumW(ix, wt, hit) == IF ix = <<>> THEN 0 ELSE (IF hit[Head(ix)] THEN wt[Head(ix)] ELSE 0) + SumW(Tail(ix), wt, hit)
PredictFails(e) ==
    LET rows == IF e.meth = "predict_features" THEN [i \in DOMAIN e.D |-> i] ELSE Answered(e.D, e.allow) IN
    IF e.err # "" THEN {"raised_" \o e.err \o "_in_" \o e.meth} ELSE
    IF e.meth = "score"
    THEN LET hit == [i \in DOMAIN e.D |-> e.alone[i] = e.y[i]]
             wt == IF e.w = <<>> THEN [i \in DOMAIN e.D |-> 1] ELSE e.w
             tot == SumW(rows, wt, [i \in DOMAIN e.D |-> TRUE]) IN
         F({<<"score_value", Abs(e.score * tot - 100000 * SumW(rows, wt, hit)) <= tot>>,
            <<"caller_arrays_modified", ~e.caller>>})
    ELSE IF Len(e.out) # Len(rows) THEN {"number_of_answers"}
    ELSE F({<<"answer_of_row", \A k \in DOMAIN rows : \A j \in DOMAIN e.out[k] : Abs(e.out[k][j] - e.alone[rows[k]][j]) <= e.tol>>,
            <<"answer_width", \A k \in DOMAIN rows : Len(e.out[k]) = Len(e.alone[rows[k]])>>,
            <<"caller_arrays_modified", ~e.caller>>})
Failing(e) == CASE e.ev = "begin" -> {}
                [] e.ev = "op" -> OpFails(e)
                [] e.ev \in {"balanced", "only"} -> SamplerFails(e)
                [] e.ev = "predict" -> PredictFails(e)
                [] OTHER -> {"unknown_event"}
Tags(e) == CASE e.ev = "begin" -> {}
             [] e.ev = "op" -> {e.op} \cup (IF Refused(reg, e) THEN {e.op \o "_refused"} ELSE {})
                               \cup (IF e.op = "select" THEN {"select_" \o e.cond.on} \cup (IF Select(reg[e.a], e.cond, TRUE).rows = <<>> THEN {"select_nothing"} ELSE {}) ELSE {})
             [] e.ev = "balanced" -> {"balanced_" \o e.pol} \cup (IF \E s \in {1, 2} : PerSide(e.D, e.b, e.pol) > Count(e.D, s) THEN {"side_repeats"} ELSE {})
             [] e.ev = "only" -> {"only"}
             [] e.ev = "predict" -> {e.meth, "kind_" \o e.kind} \cup (IF e.allow THEN {"allow_source"} ELSE {})
Init == l = 1 /\ bad = <<>> /\ seen = {} /\ reg = [h \in 1..3 |-> Empty]
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
             /\ reg' = IF e.ev = "begin" THEN [h \in 1..3 |-> Empty]
                       ELSE IF e.ev = "op" /\ ~Refused(reg, e) THEN Apply(reg, e) ELSE reg
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen, reg>>
=============================================================================
