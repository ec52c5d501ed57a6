---------------------------- MODULE GenLifecycle ----------------------------
(* Every history of up to Len operations over two objects, two settings and   *)
(* two data sets, that starts with a new object and ends in a fitted one; the *)
(* class of a history says which residue of the past it could expose.         *)
EXTENDS Lifecycle, Json, IOUtils, TLC
CONSTANTS MaxOps
VARIABLES st, hist, out
Ops == {Op("new", 2, 0, p, 0) : p \in {1, 2}} \cup {Op("set", o, 0, p, 0) : o \in {1, 2}, p \in {1, 2}}
       \cup {Op("clone", 1, 2, 0, 0), Op("copy", 1, 2, 0, 0), Op("badfit", 1, 0, 0, 0), Op("score", 1, 0, 0, 0)}
       \cup {Op("fit", o, 0, 0, d) : o \in {1, 2}, d \in {1, 2}}
       \cup {Op("search", 1, 2, p, d) : p \in {1, 2}, d \in {1, 2}}
\* classes
Fits(h) == SelectSeq(h, LAMBDA a : a.op \in {"fit", "search"})
OfO(h, o) == SelectSeq(h, LAMBDA a : a.op = "fit" /\ a.o = o)
Class(h) ==
    (IF \E o \in {1, 2} : LET f == OfO(h, o) IN Len(f) >= 2 /\ f[1].d # f[Len(f)].d THEN {"refit_other_data"} ELSE {})
    \cup (IF \E o \in {1, 2} : Len(OfO(h, o)) >= 2 THEN {"refit"} ELSE {})
    \cup (IF \E i, j \in 1..Len(h) : i < j /\ h[i].op = "set" /\ h[j].op = "fit" /\ h[i].o = h[j].o THEN {"set_then_fit"} ELSE {})
    \cup (IF \E i, j, k \in 1..Len(h) : i < j /\ j < k /\ h[i].op = "fit" /\ h[j].op = "set" /\ h[k].op = "fit"
                                        /\ h[i].o = h[j].o /\ h[j].o = h[k].o THEN {"fit_set_fit"} ELSE {})
    \cup (IF \E i, j \in 1..Len(h) : i < j /\ h[i].op = "fit" /\ h[j].op = "clone" THEN {"clone_of_fitted"} ELSE {})
    \cup (IF \E i, j \in 1..Len(h) : i < j /\ h[i].op = "set" /\ h[j].op = "clone" THEN {"clone_of_changed"} ELSE {})
    \cup (IF \E i, j, k \in 1..Len(h) : i < j /\ j < k /\ h[i].op = "set" /\ h[j].op = "set" /\ h[k].op = "fit"
                                        /\ h[i].o = h[j].o /\ h[j].o = h[k].o THEN {"set_back"} ELSE {})
    \cup (IF h[1].p = 1 /\ (\E i \in 1..Len(h) : h[i].op = "new" /\ h[i].o = 2 /\ h[i].p = 2) /\ (\E i \in 1..Len(h) : h[i].op = "fit" /\ h[i].o = 1)
        THEN {"two_configured"} ELSE {})
    \cup (IF \E i \in 1..Len(h) : h[i].op = "copy" THEN {"copy"} ELSE {})
    \cup (IF \E i \in 1..Len(h) : h[i].op = "search" THEN {"search"} ELSE {})
    \cup (IF \E i, j \in 1..Len(h) : i < j /\ h[i].op = "badfit" /\ h[j].op = "fit" /\ h[j].o = 1 THEN {"fit_after_refused"} ELSE {})
    \cup (IF \E i, j \in 1..Len(h) : i < j /\ h[i].op = "fit" /\ h[j].op = "fit" /\ h[i].o # h[j].o THEN {"two_objects"} ELSE {})
Init == st = Apply([o \in {1, 2} |-> Absent], Op("new", 1, 0, 1, 0)) /\ hist = <<Op("new", 1, 0, 1, 0)>> /\ out = {}
Add(a) == /\ Len(hist) < MaxOps /\ Enabled_(st, a)
          /\ st' = Apply(st, a) /\ hist' = Append(hist, a)
\* no useless repetition of a query, clone or refused fit
Useful(a) == hist[Len(hist)] # a
Next == \E a \in Ops : Useful(a) /\ Add(a) /\ out' = out
Spec == Init /\ [][Next]_<<st, hist, out>>
Complete == Len(hist) >= 3 /\ hist[Len(hist)].op \in {"fit", "search"} /\ Class(hist) # {}
\* written from a constraint so that every complete history is emitted once

ndJsonAppend_(r) == Serialize(ToJson(r[1]) \o "\n", IOEnv.OUT,
                              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

Emit == Complete => ndJsonAppend_(<<[h |-> hist, c |-> Class(hist)]>>)
=============================================================================
