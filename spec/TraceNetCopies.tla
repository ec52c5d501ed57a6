--------------------------- MODULE TraceNetCopies ---------------------------
(* Judges recorded histories of deep nets that are trained, copied and asked.   *)
EXTENDS NetCopies, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
Rng(s) == {s[i] : i \in DOMAIN s}
Nets == 1..3
Start == [i \in Nets |-> Absent]
Asks == {"proba", "features", "score", "cv"}
\* e: given, carry, ops, wts[k][i]: number of the weights of net i after operation k (0: none to see),
\*    ans[k]: number of the answer of operation k, errs[k], changed
NetFails(e) ==
    LET K == DOMAIN e.ops
        RECURSIVE Build(_)
        Build(k) == IF k = 0 THEN <<Start>> ELSE LET p == Build(k - 1) IN Append(p, Step(e.given, e.carry, p[k], e.ops[k]))
        S == Build(Len(e.ops))      \* S[k + 1]: the nets after k operations
        At(k) == S[k + 1]
        Seen(k, i) == At(k)[i].alive /\ (e.given = "instance" \/ At(k)[i].ready)
        Key(k) == LET n == At(k)[e.ops[k].i] IN IF e.ops[k].op = "cv" THEN <<Cloned(e.given, e.carry, n).v, n.c>> ELSE <<n.v>>
        Views == {<<k, i>> \in K \X Nets : Seen(k, i)}
        ok == \A k \in K : e.errs[k] = ""
    IN IF ~ok THEN {"raised_" \o e.ops[k].op \o "_" \o e.errs[k] : k \in {x \in K : e.errs[x] # ""}}
       ELSE F({<<"not_a_history", \A k \in K : Possible(S[k], e.ops[k])>>,
               <<"inputs_changed", ~e.changed>>,
               <<"weights_missing", \A k \in K, i \in Nets : (e.wts[k][i] # 0) <=> Seen(k, i)>>,
               <<"weights_of_another_history", \A a, b \in Views : At(a[1])[a[2]].v = At(b[1])[b[2]].v => e.wts[a[1]][a[2]] = e.wts[b[1]][b[2]]>>,
               <<"training_did_nothing", \A k \in K : (e.ops[k].op = "train" /\ k > 1 /\ Seen(k - 1, e.ops[k].i) /\ At(k)[e.ops[k].i].v # At(k - 1)[e.ops[k].i].v) => e.wts[k][e.ops[k].i] # e.wts[k - 1][e.ops[k].i]>>,
               <<"answer_depends_on_more_than_the_weights", \A k, m \in {x \in K : e.ops[x].op \in Asks} :
                    (e.ops[k].op = e.ops[m].op /\ e.ops[k].s = e.ops[m].s /\ Key(k) = Key(m)) => e.ans[k] = e.ans[m]>>})
Same(e) == \E k, m \in DOMAIN e.ops : k # m /\ e.ops[k].op \in Asks /\ e.ops[k].op = e.ops[m].op /\ e.ops[k].s = e.ops[m].s /\ e.ans[k] = e.ans[m] /\ e.ans[k] # 0
Failing(e) == NetFails(e)
Tags(e) == {e.method, e.how} \cup {a.op : a \in Rng(e.ops)} \cup (IF Same(e) THEN {"asked_again"} ELSE {})

Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
=============================================================================
