--------------------------- MODULE TraceRegistry ---------------------------
(* Judges histories of the real DomainAwareDataset: after every operation the *)
(* registry read back by name, and every pack, must be the specified ones.    *)
EXTENDS Registry, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Nan == -9999999
VARIABLES l, bad, seen
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
SetOf(s) == {s[i] : i \in 1..Len(s)}
Refusal(x) == x \in {"AssertionError", "ValueError", "KeyError"}
\* the additions a merge stands for
MapName(m, nm) == IF \E i \in 1..Len(m) : m[i][1] = nm THEN (m[CHOOSE i \in 1..Len(m) : m[i][1] = nm])[2] ELSE nm
Clashes(R, op) ==
    \E i \in 1..Len(op.other) : \/ MapName(op.map, op.other[i].name) \in Names(R)
                                \/ \E j \in 1..(i - 1) : MapName(op.map, op.other[j].name) = MapName(op.map, op.other[i].name)
Held(N, op, i) == \E e \in N : e.name = MapName(op.map, op.other[i].name) /\ Same(e, op.other[i])
AddFails(R, op, N) ==
    IF op.name # "" /\ op.name \in Names(R)
    THEN F({<<"name_reused_accepted", op.err # "">>, <<"refused_name_changed_the_registry", N = R>>,
            <<"name_reused_raised_" \o op.err, op.err = "" \/ Refusal(op.err)>>})
    ELSE IF op.err # "" THEN {"add_raised_" \o op.err}
    ELSE F({<<"earlier_domains_changed", R \subseteq N>>, <<"one_domain_more", Cardinality(N) = Cardinality(R) + 1>>,
            <<"names_or_ids_repeated", Unique(N)>>, <<"ids_not_positive", Positive(N)>>,
            <<"added_domain_not_retrievable", \A e \in N \ R : Same(e, op) /\ (op.name # "" => e.name = op.name)>>})
MergeFails(R, op, N) ==
    IF Clashes(R, op)
    THEN F({<<"merge_clash_accepted", op.err # "">>, <<"merge_clash_raised_" \o op.err, op.err = "" \/ Refusal(op.err)>>,
            <<"earlier_domains_changed", R \subseteq N>>})
    ELSE IF op.err # "" THEN {"merge_raised_" \o op.err}
    ELSE F({<<"earlier_domains_changed", R \subseteq N>>,
            <<"merged_count", Cardinality(N) = Cardinality(R) + Len(op.other)>>,
            <<"names_or_ids_repeated", Unique(N)>>, <<"ids_not_positive", Positive(N)>>,
            <<"merged_domain_not_retrievable", \A i \in 1..Len(op.other) : Held(N, op, i)>>,
            <<"merged_dataset_changed", op.otherok>>})
Known(R, op) == SetOf(op.src) \cup SetOf(op.tgt) \subseteq Names(R)
Same2(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
\* where rows are right, what is wrong with the labels
LabelFails(R, op, labs) ==
    IF Len(labs) # Len(op.labs) THEN {"number_of_labels"}
    ELSE LET wrong == {i \in 1..Len(labs) : labs[i] # op.labs[i]}
             ns == Len(Concat([i \in 1..Len(op.src) |-> Entry(R, op.src[i]).rows])) IN
         F({<<"source_label_changed", \A i \in wrong : i > ns>>,
            <<IF op.masked THEN "target_label_not_masked" ELSE "target_label_changed", \A i \in wrong : i <= ns>>})
PackFails(R, op, N) ==
    IF ~Known(R, op) THEN F({<<"unknown_domain_accepted", op.err # "">>, <<"unknown_domain_raised_" \o op.err, op.err = "" \/ Refusal(op.err)>>})
    ELSE IF op.err # "" THEN {"pack_raised_" \o op.err}
    ELSE F({<<"packed_rows", Same2(op.rows, PackRows(R, op.src, op.tgt))>>,
            <<"packed_features", op.xok>>,
            <<"packed_domains", Same2(op.doms, PackDoms(R, op.src, op.tgt))>>,
            <<"stored_dataset_changed", N = R /\ ~op.modified>>,
            <<"container_type", op.typeok>>,
            <<"domain_names", op.names # <<>> => \A i \in 1..Len(op.names) :
                \/ \E j \in 1..Len(op.src) : op.src[j] = op.names[i][1] /\ op.names[i][2] = Entry(R, op.src[j]).id
                \/ \E j \in 1..Len(op.tgt) : op.tgt[j] = op.names[i][1] /\ op.names[i][2] = -Entry(R, op.tgt[j]).id>>})
         \cup LabelFails(R, op, PackLabs(R, op.src, op.tgt, op.masked, op.mask))
SelFails(R, op) ==
    IF op.err # "" THEN {"select_raised_" \o op.err}
    ELSE F({<<"selected_rows", \A i \in 1..Len(op.doms) : op.sel[i] = (\E j \in 1..Len(op.names) : Entry(R, op.names[j]).id = op.doms[i])>>})
OpFails(R, op, N) == CASE op.op = "add" -> AddFails(R, op, N)
                       [] op.op = "merge" -> MergeFails(R, op, N)
                       [] op.op = "pack" -> PackFails(R, op, N)
                       [] op.op = "select" -> SelFails(R, op)
After(e, i) == IF i = 0 THEN {} ELSE SetOf(e.ops[i].after)
Failing(e) == IF e.ev # "history" THEN {"unknown_event"}
              ELSE UNION {OpFails(After(e, i - 1), e.ops[i], After(e, i)) : i \in 1..Len(e.ops)}
OpTag(R, op) == IF op.op = "pack" THEN "pack_" \o op.rt \o (IF op.masked THEN "_masked_" ELSE "_open_") \o op.kind
                ELSE op.op \o (IF op.err # "" THEN "_refused" ELSE "")
Tags(e) == {OpTag({}, e.ops[i]) : i \in 1..Len(e.ops)}

Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
=============================================================================
