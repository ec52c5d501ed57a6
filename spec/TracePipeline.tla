--------------------------- MODULE TracePipeline ---------------------------
(* Judges recorded fits and predictions of real skada pipelines (their base   *)
(* estimators are recording stubs) against the state machine of Pipeline, and *)
(* recorded pipeline constructions against the construction rules.            *)
EXTENDS Pipeline, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}

(* ---- run: one fit and the predictions that followed                       *)
\* a selection that leaves nothing is outside the domain of the model
Defined(st, prog, c) == \A k \in 1..Len(st.calls) : \A x \in st.calls[k] :
    (prog[k].sel \in {"source", "target"} \/ prog[k].kind = "AS" \/ k > 1) => x.ids # <<>>
Bare(x) == [ids |-> x.ids, trail |-> x.trail, y |-> x.y, wgiven |-> x.wgiven, w |-> x.w,
            dgiven |-> x.dgiven, d |-> x.d]
Got(e, k) == SelectSeq(e.calls, LAMBDA x : x.k = k)
\* the recorded call for the same rows, if there is one
Same(e, k, x) == {z \in Rng(Got(e, k)) : z.ids = x.ids}
\* a selector of both sides may have an estimator of its own for the target rows
SideOf(e, k, z) == IF e.prog[k].sel = "st" /\ e.prog[k].two /\ z.ids # <<>> /\ e.c.d[z.ids[1]] < 0 THEN "t" ELSE "s"
StepFails(e, st, k) ==
    LET want == st.calls[k]
        got == Got(e, k)
        pairs == {<<x, CHOOSE z \in Same(e, k, x) : TRUE>> : x \in {y \in want : Same(e, k, y) # {}}} IN
    F({<<"estimator_count", Len(got) = Cardinality(want)>>,
       <<"rows_of_estimator", {x.ids : x \in want} = {z.ids : z \in Rng(got)}>>,
       <<"estimator_of_side", \A z \in Rng(got) : z.side = SideOf(e, k, z)>>,
       <<"features_of_rows", \A p \in pairs : p[1].trail = p[2].trail>>,
       <<"labels_of_rows", \A p \in pairs : p[1].y = p[2].y>>,
       <<"weights_delivered", \A p \in pairs : p[1].wgiven = p[2].wgiven>>,
       <<"weights_of_rows", \A p \in pairs : p[1].w = p[2].w>>,
       <<"domains_delivered", \A p \in pairs : p[1].dgiven = p[2].dgiven>>,
       <<"domains_of_rows", \A p \in pairs : p[1].d = p[2].d>>})
RouteErrors == {"UnsetMetadataPassedError", "IncompatibleMetadataError"}
WantOut(e, st, p, i) ==
    LET t == Trail(e.prog, st, 1, p.d[i], 0)
        \* kinds that answer have the tag of the last step in the dtype bit
        tag == AnswerTag(e.prog, st, Len(e.prog), p.d[i]) IN
    2 * t + (IF e.prog[Len(e.prog)].kind = "E" /\ tag % 2 = 1 THEN 1 ELSE 0)
PredFails(e, st, p) ==
    IF UnknownDomain(e.prog, st, p.d)
    THEN IF p.err = "ValueError" THEN {} ELSE {"unknown_domain_answered"}
    ELSE IF p.err # "" THEN {"prediction_raised_" \o p.err}
    ELSE F({<<"prediction_count", Len(p.out) = Len(p.d)>>,
            <<"prediction_of_row", Len(p.out) = Len(p.d) =>
                 \A i \in 1..Len(p.d) : p.out[i] = WantOut(e, st, p, i)>>})
RunFails(e) ==
    LET st == Run(e.prog, e.c) IN
    IF ~Defined(st, e.prog, e.c) \/ (st.err /\ Select(e.prog[st.k], st.ct, e.c).ids = <<>>) THEN {}
    ELSE IF st.err
    THEN LET s == e.prog[st.k]
             ct == Select(s, st.ct, e.c) IN
         IF e.err = "" THEN {"unrouted_metadata_dropped"}
         ELSE IF Unrouted(s, ct, e.c) /\ ~MissingSide(s, ct, e.c) /\ e.err \notin RouteErrors
              THEN {"fit_raised_" \o e.err}
         ELSE IF ~Unrouted(s, ct, e.c) /\ e.err # "ValueError" THEN {"missing_side_raised_" \o e.err}
         ELSE {}
    ELSE IF e.err # "" THEN {"fit_raised_" \o e.err}
    ELSE UNION {StepFails(e, st, k) : k \in 1..Len(e.prog)}
         \cup UNION {PredFails(e, st, e.preds[i]) : i \in 1..Len(e.preds)}
         \cup (IF e.modified THEN {"input_modified"} ELSE {})
RunTags(e) == LET st == Run(e.prog, e.c) IN
    {"run_" \o s.sel \o "_" \o s.kind : s \in Rng(e.prog)}
    \cup (IF st.err THEN {"run_refused"} ELSE IF ~Defined(st, e.prog, e.c) THEN {"run_undefined"} ELSE {})
    \cup (IF e.c.wgiven THEN {"caller_weights"} ELSE {})

(* ---- pair: the same fit with other target labels                          *)
LeakFails(e) ==
    IF e.err # "" THEN {"fit_raised_" \o e.err}
    ELSE IF ~e.masked THEN (IF e.sameCalls THEN {"unmasked_labels_withheld"} ELSE {})
    ELSE F({<<"target_labels_reach_steps", e.sameCalls>>, <<"target_labels_change_predictions", e.samePred>>})

(* ---- build: construction                                                  *)
\* an item of the argument list: [what |-> "est" | "sel" | "nested", name, ids, pred, base, selname]
\*   flattened entries carry: name ("" when automatic), own (chosen by the caller), id of the estimator object,
\*   base (lower-case type name), pred (predicts target labels), sel ("" when bare)
Suffix(names, i) ==
    LET n == names[i]
        total == Cardinality({j \in 1..Len(names) : names[j] = n})
        rank == Cardinality({j \in 1..i : names[j] = n}) IN
    IF total > 1 THEN n \o "-" \o ToString(rank) ELSE n
SelOf(e, x) == IF x.sel # "" THEN x.sel ELSE e.defsel
AutoBase(e, x) == (IF SelOf(e, x) = "PerDomain" THEN "perdomain_" ELSE "") \o x.base
MaskFlag(e, i) == e.mask /\ \A j \in 1..i : ~e.items[j].pred
BuildFails(e) ==
    IF e.badsel THEN (IF e.err = "ValueError" THEN {} ELSE {"unsupported_selector_" \o e.err})
    ELSE IF e.err # "" THEN {"build_raised_" \o e.err}
    ELSE LET auto == [i \in 1..Len(e.items) |-> AutoBase(e, e.items[i])] IN
      IF Len(e.steps) # Len(e.items) THEN {"number_of_steps"}
      ELSE F({<<"step_order", \A i \in 1..Len(e.items) : e.steps[i].id = e.items[i].id>>,
              <<"user_names", \A i \in 1..Len(e.items) : e.items[i].own => e.steps[i].name = e.items[i].name>>,
              <<"auto_names", \A i \in 1..Len(e.items) :
                   LET w == IF e.items[i].name = "" THEN Suffix(auto, i) ELSE e.items[i].name IN
                   \/ e.items[i].own \/ e.steps[i].name = w
                   \/ \E j \in 1..Len(e.items) : j # i /\ e.steps[j].name = w>>,
              <<"unique_names", Cardinality({s.name : s \in Rng(e.steps)}) = Len(e.steps)>>,
              <<"selector", \A i \in 1..Len(e.items) : e.steps[i].sel = SelOf(e, e.items[i])>>,
              <<"wrapped_once", \A i \in 1..Len(e.items) : e.steps[i].depth = 1>>,
              <<"explicit_selector_kept", \A i \in 1..Len(e.items) : e.items[i].sel # "" => e.steps[i].kept>>,
              <<"only_last_final", \A i \in 1..Len(e.items) : e.steps[i].final = (i = Len(e.items))>>,
              <<"mask_flag", \A i \in 1..Len(e.items) :
                    e.items[i].sel = "" => e.steps[i].mask = MaskFlag(e, i)>>,
              <<"explicit_mask_kept", \A i \in 1..Len(e.items) :
                    e.items[i].sel # "" => e.steps[i].mask = e.items[i].mask>>})

\* the part of construction that decides who sees target labels
MaskClauses == {"mask_flag", "explicit_mask_kept"}
BuildMaskFails(e) == IF e.badsel \/ e.err # "" THEN {} ELSE BuildFails(e) \cap MaskClauses

Failing(e) == CASE e.ev = "run" -> RunFails(e)
                [] e.ev = "buildmask" -> BuildMaskFails(e)
                [] e.ev = "leak" -> LeakFails(e)
                [] e.ev = "build" -> BuildFails(e)
                [] OTHER -> {"unknown_event"}
Tags(e) == CASE e.ev = "run" -> RunTags(e)
             [] e.ev = "leak" -> {"leak_" \o e.name}
             [] OTHER -> {e.ev}

Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
============================================================================
