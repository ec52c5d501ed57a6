---------------------------- MODULE MC_Transport ----------------------------
(* From any assignment, exchange targets along a cheaper cycle until there is   *)
(* none: what is left costs least of all, whatever the costs.  PairsOnly:       *)
(* exchanging two at a time (a broken design) can get stuck.                    *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N, Costs, PairsOnly
VARIABLES c, p
vars == <<c, p>>
Perms == {f \in [1..N -> 1..N] : \A i, j \in 1..N : i # j => f[i] # f[j]}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Total(f) == Sum([i \in 1..N |-> c[i][f[i]]])
Moved(f, g) == {i \in 1..N : f[i] # g[i]}
\* g differs from f by one exchange along a cycle
Allowed(f, g) == /\ Total(g) < Total(f)
                 /\ IF PairsOnly THEN Cardinality(Moved(f, g)) = 2 ELSE TRUE
Init == c \in [1..N -> [1..N -> Costs]] /\ p \in Perms
Exchange == /\ \E g \in Perms : Allowed(p, g) /\ p' = g
            /\ UNCHANGED c
Spec == Init /\ [][Exchange]_vars /\ WF_vars(Exchange)
Stuck == ~\E g \in Perms : Allowed(p, g)
Least == Stuck => \A g \in Perms : Total(p) <= Total(g)
Falls == [][Total(p)' < Total(p)]_vars
Ends == <>[]Stuck
\* rows on a line, squared costs: the order-preserving assignment is a least one
OnLine == \A x \in [1..N -> 0..2], y \in [1..N -> 0..2] :
    (\A i \in 1..N - 1 : x[i] <= x[i + 1] /\ y[i] <= y[i + 1]) =>
      \A g \in Perms : Sum([i \in 1..N |-> (x[i] - y[i]) * (x[i] - y[i])]) <= Sum([i \in 1..N |-> (x[i] - y[g[i]]) * (x[i] - y[g[i]])])
ASSUME OnLine
=============================================================================
