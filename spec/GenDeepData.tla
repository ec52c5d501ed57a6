---------------------------- MODULE GenDeepData -----------------------------
(* Every history: two data sets, then two operations out of the whole alphabet *)
(* that make sense on the registers filled so far.                            *)
EXTENDS DeepData, Json, IOUtils, TLC
VARIABLES hist
O(op, a, b, r, keep, on, v, bad) == [op |-> op, a |-> a, b |-> b, r |-> r, keep |-> keep, on |-> on, v |-> v, bad |-> bad, pool |-> "", w |-> FALSE]
B(r, p, w) == [O("build", 1, 1, r, FALSE, "", 0, FALSE) EXCEPT !.pool = p, !.w = w]
\* concrete rows are chosen by the driver; pool "e" is the empty data set
Conds == {<<"side", 1>>, <<"side", 0>>, <<"domain", 1>>, <<"domain", -2>>, <<"labelled", 1>>, <<"X", 3>>, <<"y", 0>>, <<"sample_domain", -2>>, <<"sample_weight", 22>>}
Written3 == \E i \in DOMAIN hist : hist[i].r = 3
Add(o) == hist' = Append(hist, o)
Build1 == Len(hist) = 0 /\ \E p \in {"a", "b", "e"}, w \in BOOLEAN : Add(B(1, p, w))
Build2 == Len(hist) = 1 /\ \E w \in BOOLEAN : Add(B(2, "b", w))
Later == Len(hist) \in 2..3
Merge_ == Later /\ \E b \in {1, 2}, k \in BOOLEAN : Add(O("merge", 1, b, 3, k, "", 0, FALSE))
MergeIn_ == Later /\ \E b \in {1, 2}, k \in BOOLEAN : Add(O("mergein", 1, b, 1, k, "", 0, FALSE))
Select_ == Later /\ \E a \in {1} \cup (IF Written3 THEN {3} ELSE {}), k \in BOOLEAN, c \in Conds : Add(O("select", a, 1, 3, k, c[1], c[2], FALSE))
Weights_ == Later /\ \E a \in {1} \cup (IF Written3 THEN {3} ELSE {}), f \in BOOLEAN : Add(O("add_weights", a, 1, a, FALSE, "", 0, f))
Drop_ == Later /\ \E a \in {1} \cup (IF Written3 THEN {3} ELSE {}) : Add(O("remove_weights", a, 1, a, FALSE, "", 0, FALSE))
AddDomain_ == Later /\ \E f \in BOOLEAN : Add(O("add_domain", 1, 1, 3, FALSE, "", 0, f))
Copy_ == Later /\ Add(O("copy", 1, 1, 3, FALSE, "", 0, FALSE))
Split_ == Later /\ \E a \in {1} \cup (IF Written3 THEN {3} ELSE {}), k \in BOOLEAN : Add(O("split", a, 1, 1, k, "", 0, FALSE))
Init == hist = <<>>
Next == Build1 \/ Build2 \/ Merge_ \/ MergeIn_ \/ Select_ \/ Weights_ \/ Drop_ \/ AddDomain_ \/ Copy_ \/ Split_
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = 4 => Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
                              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
