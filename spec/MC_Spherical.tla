--------------------------- MODULE MC_Spherical -----------------------------
(* Every run on few rows of equal length, from every choice of initial centres  *)
(* among the rows: it stops, and then every row is with a nearest centre and    *)
(* the centres are the sums of their rows.  Lazy: rows are reassigned only in   *)
(* the first round (a broken design).                                           *)
EXTENDS Spherical
CONSTANTS N, K, Lazy
VARIABLES X, C, lab, round, done
vars == <<X, C, lab, round, done>>
Dirs == {<<3, 4>>, <<4, 3>>, <<5, 0>>, <<-3, 4>>, <<0, -5>>, <<-4, -3>>}
Init == /\ X \in [1..N -> Dirs] /\ \E f \in [1..K -> 1..N] : C = [k \in 1..K |-> X[f[k]]] /\ (\A i, j \in 1..K : i # j => f[i] # f[j])
        /\ lab = [i \in 1..N |-> 0] /\ round = 0 /\ done = FALSE
Round == /\ ~done
         /\ LET l == IF Lazy /\ round > 0 THEN lab ELSE Assign(X, C)  n == Centres(X, l, K, 2) IN
              /\ lab' = l /\ round' = round + 1
              /\ (IF n = C THEN done' = TRUE /\ C' = C ELSE done' = FALSE /\ C' = n)
         /\ UNCHANGED X
Spec == Init /\ [][Round]_vars /\ WF_vars(Round)
Stops == <>done
Bounded == round <= N + 3
AtEnd == done => /\ \A i \in DOMAIN X : \A k \in 1..K : ~Closer(X[i], C[k], C[lab[i]])
                 /\ C = Centres(X, lab, K, 2)
=============================================================================
