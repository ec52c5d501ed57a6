---------------------------- MODULE MC_Subsample ----------------------------
(* Draw rows one by one within the quota of each group: whatever is drawn, an *)
(* admissible subset exists, and quotas exist for every layout and size.       *)
EXTENDS Subsample
CONSTANTS MaxN, Groups
VARIABLES G, z, strat, quota, rows, st
vars == <<G, z, strat, quota, rows, st>>
Sizes == {[k |-> "int", num |-> a, den |-> 1] : a \in 1..MaxN + 1} \cup {[k |-> "frac", num |-> a, den |-> 4] : a \in 1..4}
Init == /\ \E n \in 1..MaxN : G \in [1..n -> Groups]
        /\ z \in Sizes /\ Admissible(z, Len(G)) /\ strat \in BOOLEAN
        /\ quota = [g \in Groups |-> 0] /\ rows = {} /\ st = "share"
RECURSIVE Total(_, _)
Total(q, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN q[x] + Total(q, S \ {x})
ShareOut == /\ st = "share" /\ st' = "draw"
            /\ quota' \in [Groups -> 0..Len(G)]
            /\ \A g \in Groups : quota'[g] <= Cardinality(GroupRows(G, g))
            /\ Total(quota', Groups) = Keep(z, Len(G))
            /\ strat => \A g \in Rng(G) : ShareOK(quota'[g], Cardinality(GroupRows(G, g)), Keep(z, Len(G)), Len(G))
            /\ UNCHANGED <<G, z, strat, rows>>
Draw == /\ st = "draw"
        /\ \E i \in 1..Len(G) \ rows : /\ Cardinality(rows \cap GroupRows(G, G[i])) < quota[G[i]]
                                      /\ rows' = rows \cup {i}
        /\ UNCHANGED <<G, z, strat, quota, st>>
Stop == st = "draw" /\ Cardinality(rows) = Keep(z, Len(G)) /\ st' = "done" /\ UNCHANGED <<G, z, strat, quota, rows>>
Next == ShareOut \/ Draw \/ Stop
Spec == Init /\ [][Next]_vars
Result == st = "done" => Subset(rows, G, z, strat)
Possible == st = "share" => ENABLED ShareOut
NotStuck == st = "draw" => ENABLED (Draw \/ Stop)
=============================================================================
