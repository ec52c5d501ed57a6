---------------------------- MODULE MC_Registry ----------------------------
(* Histories of additions (named or not), merges of a second registry under  *)
(* a renaming, and packs.  The naming rule of unnamed domains is the code's:  *)
(* "_k" for the first free k counted from the number of domains plus one.     *)
EXTENDS Registry, TLC
CONSTANTS MaxOps, Rule          \* Rule: "free" (the code) or "count" (never looks for a clash)
Nan == -9999999
Auto == <<"_1", "_2", "_3", "_4", "_5", "_6", "_7", "_8">>
User == {"a", "_1", "_2", "_3"}
VARIABLES reg, other, given, n, packed
vars == <<reg, other, given, n, packed>>
Fresh(R) == LET k == CHOOSE k \in 1..8 : /\ k > Cardinality(R) /\ Auto[k] \notin Names(R)
                                         /\ \A j \in 1..8 : (j > Cardinality(R) /\ Auto[j] \notin Names(R)) => k <= j
            IN Auto[k]
NewName(R, nm) == IF nm # "" THEN nm ELSE IF Rule = "free" THEN Fresh(R) ELSE Auto[Cardinality(R) + 1]
Dom(k, has) == [rows |-> <<10 * k, 10 * k + 1>>, labs |-> IF has THEN <<<<2 * k>>, <<0>>>> ELSE <<>>, has |-> has]
Put(R, nm, d) == {e \in R : e.name # nm} \cup {[name |-> nm, id |-> Cardinality(R) + 1, rows |-> d.rows, labs |-> d.labs, has |-> d.has]}
Init == reg = {} /\ other = {} /\ given = {} /\ n = 0 /\ packed = <<>>
Add(nm, has) == /\ n < MaxOps /\ n' = n + 1
                /\ LET nn == NewName(reg, nm) d == Dom(n + 1, has) IN
                   IF nm # "" /\ nm \in Names(reg) THEN UNCHANGED <<reg, given>>
                   ELSE reg' = Put(reg, nn, d) /\ given' = given \cup {[name |-> nn, d |-> d]}
                /\ UNCHANGED <<other, packed>>
AddOther(nm, has) == /\ n < MaxOps /\ n' = n + 1 /\ Cardinality(other) < 2
                     /\ ~(nm # "" /\ nm \in Names(other))
                     /\ other' = Put(other, NewName(other, nm), Dom(n + 1, has))
                     /\ UNCHANGED <<reg, given, packed>>
\* merging adds the other registry's domains one by one, renaming "_1" to b when asked
Merge(ren) ==
    /\ n < MaxOps /\ n' = n + 1 /\ other # {}
    /\ LET nm(e) == IF ren /\ e.name = "_1" THEN "b" ELSE e.name
           clash == \E e \in other : nm(e) \in Names(reg) IN
       IF clash THEN UNCHANGED <<reg, given>>
       ELSE LET add(e) == [name |-> nm(e), id |-> Cardinality(reg) + e.id, rows |-> e.rows, labs |-> e.labs, has |-> e.has] IN
            /\ reg' = reg \cup {add(e) : e \in other}
            /\ given' = given \cup {[name |-> nm(e), d |-> [rows |-> e.rows, labs |-> e.labs, has |-> e.has]] : e \in other}
    /\ other' = {} /\ UNCHANGED packed
Pack(S, T, masked) == /\ packed' = [rows |-> PackRows(reg, S, T), doms |-> PackDoms(reg, S, T),
                                     labs |-> PackLabs(reg, S, T, masked, -2), masked |-> masked]
                      /\ UNCHANGED <<reg, other, given, n>>
PackStep == /\ reg # {} /\ packed = <<>>
            /\ \E a, b \in Names(reg), m \in BOOLEAN : Pack(<<a>>, <<b>>, m) \/ Pack(<<a, b>>, <<b>>, m)
Next == \/ \E nm \in User \cup {""}, has \in BOOLEAN : Add(nm, has) \/ AddOther(nm, has)
        \/ \E ren \in BOOLEAN : Merge(ren)
        \/ PackStep
Spec == Init /\ [][Next]_vars
UniqueNames == Unique(reg) /\ Positive(reg)
EveryDomainKept == \A g \in given : \E e \in reg : e.name = g.name /\ Same(e, g.d)
IdsStable == [][\A e \in reg : e \in reg']_reg
PackFacts == packed # <<>> =>
    /\ Len(packed.rows) = Len(packed.doms) /\ Len(packed.labs) = Len(packed.rows)
    /\ \A i \in 1..Len(packed.rows) : \E e \in reg :
          /\ e.id = (IF packed.doms[i] < 0 THEN -packed.doms[i] ELSE packed.doms[i])
          /\ \E j \in 1..Len(e.rows) : e.rows[j] = packed.rows[i]
               /\ (packed.doms[i] > 0 \/ ~packed.masked => packed.labs[i] = LabelsOf(e)[j])
               /\ (packed.doms[i] < 0 /\ packed.masked => packed.labs[i] = <<-2>>)
=============================================================================
