---------------------------- MODULE MC_DeepData -----------------------------
(* Histories of data set operations over three registers: whatever happens, a  *)
(* row keeps the label and domain it was built with and the weight last given  *)
(* to it, and no operation touches a register it does not write.               *)
EXTENDS DeepData
CONSTANTS MaxOps, Bad
VARIABLES reg, n, last
vars == <<reg, n, last>>
H == 1..3
\* what each row identity was built with
Label == <<0, -1, 1, 2, -1, 0>>
Dom == <<0, -2, 1, -2, -1, 1>>
W1 == <<4, 5, 6, 7, 8, 9>>
W2 == <<11, 12, 13, 14, 15, 16>>
Pool == {<<1, 2>>, <<3, 4>>, <<5>>, <<6, 1, 2>>}
L(xs) == [i \in DOMAIN xs |-> Label[xs[i]]]
G(xs) == [k |-> "each", v |-> [i \in DOMAIN xs |-> Dom[xs[i]]]]
Nothing == [op |-> "none", a |-> 1, b |-> 1, r |-> 1, keep |-> FALSE, xs |-> <<>>, ys |-> <<>>, dom |-> [k |-> "none", v |-> <<>>], ws |-> <<>>, cond |-> [on |-> "side", v |-> 1]]
Init == reg = [h \in H |-> Empty] /\ n = 0 /\ last = Nothing
Conds == {[on |-> o, v |-> 1] : o \in {"side", "domain", "labelled", "X", "y", "sample_domain"}} \cup {[on |-> "side", v |-> 0], [on |-> "sample_weight", v |-> 6]}
\* a broken design: the weights are not cut with the rows
BadSelect(a, c) == LET s == Select(a, c, TRUE) IN [s EXCEPT !.rows = [i \in DOMAIN s.rows |-> [s.rows[i] EXCEPT !.w = a.rows[i].w]]]
Do(e) == /\ n < MaxOps /\ n' = n + 1 /\ last' = e
         /\ reg' = IF Refused(reg, e) THEN reg
                   ELSE IF Bad /\ e.op = "select" /\ e.keep THEN [reg EXCEPT ![e.r] = BadSelect(reg[e.a], e.cond)]
                   ELSE Apply(reg, e)
Build == \E r \in {1, 2}, xs \in Pool, w \in BOOLEAN :
    Do([Nothing EXCEPT !.op = "build", !.r = r, !.xs = xs, !.ys = L(xs), !.dom = G(xs), !.ws = IF w THEN [i \in DOMAIN xs |-> W1[xs[i]]] ELSE <<>>])
MergeOp == \E a, b, r \in H, k \in BOOLEAN : Len(reg[a].rows) + Len(reg[b].rows) <= 6 /\ Do([Nothing EXCEPT !.op = "merge", !.a = a, !.b = b, !.r = r, !.keep = k])
MergeIn == \E a, b \in H, k \in BOOLEAN : Len(reg[a].rows) + Len(reg[b].rows) <= 6 /\ Do([Nothing EXCEPT !.op = "mergein", !.a = a, !.b = b, !.keep = k])
SelectOp == \E a, r \in H, c \in Conds, k \in BOOLEAN : (c.on = "sample_weight" => reg[a].hw) /\ Do([Nothing EXCEPT !.op = "select", !.a = a, !.r = r, !.cond = c, !.keep = k])
AddW == \E a \in H : reg[a].rows # <<>> /\ Do([Nothing EXCEPT !.op = "add_weights", !.a = a, !.ws = [i \in DOMAIN reg[a].rows |-> W2[reg[a].rows[i].x]]])
DropW == \E a \in H : reg[a].rows # <<>> /\ Do([Nothing EXCEPT !.op = "remove_weights", !.a = a])
Next == Build \/ MergeOp \/ MergeIn \/ SelectOp \/ AddW \/ DropW
Spec == Init /\ [][Next]_vars
Integrity == \A h \in H : \A i \in DOMAIN reg[h].rows : LET q == reg[h].rows[i] IN
    q.y = Label[q.x] /\ q.d = Dom[q.x] /\ (IF reg[h].hw THEN q.w \in {W1[q.x], W2[q.x]} ELSE q.w = 0)
Written(e) == IF e.op \in {"mergein", "add_weights", "remove_weights"} THEN {e.a} ELSE {e.r}
OthersKept == [][\A h \in H : h \notin Written(last') => reg'[h] = reg[h]]_vars
\* splitting by domain and merging back in domain order is a permutation that keeps each domain's order
SplitMerge == \A h \in H : LET a == reg[h] IN
    \A d \in Domains(a) : LET s == Select(a, [on |-> "domain", v |-> d], TRUE) IN
        /\ \A i \in DOMAIN s.rows : s.rows[i].d = d
        /\ Len(s.rows) = Cardinality({i \in DOMAIN a.rows : a.rows[i].d = d})
        /\ \A i \in DOMAIN s.rows : Within(s.rows, i) = i - 1
=============================================================================
