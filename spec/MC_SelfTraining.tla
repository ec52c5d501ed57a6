-------------------------- MODULE MC_SelfTraining --------------------------
(* The loops as machines, with arbitrary classifiers at every stage.          *)
EXTENDS SelfTraining
CONSTANTS NS, NT, Ks, MaxRounds, Values, Feats, Labs, JN
VARIABLES kind, k, maxit, rnd, del, add, lab, margin, st, everDel, outs,   \* exchange
          plan, pred, oto, tgl, feats, labs, dist, tol                        \* joint OT
exch == <<k, maxit, del, add, lab, margin, everDel, outs>>
jot == <<plan, pred, oto, tgl, feats, labs, dist, tol>>
vars == <<kind, rnd, st, exch, jot>>
Vals == {-12, -4, 4, 12}
ValsT == {-12, -6, -2, 2, 6, 12}
S == 1..NS
T == 1..NT
Lab(d) == [i \in T |-> IF d[i] > 0 THEN 1 ELSE 0]
NoJ == plan = <<>> /\ pred = <<>> /\ oto = <<>> /\ tgl = <<>> /\ feats = <<>> /\ labs = <<>> /\ dist = <<>> /\ tol = 0
NoE == k = 0 /\ maxit = 0 /\ del = {} /\ add = {} /\ lab = <<>> /\ margin = {} /\ everDel = {} /\ outs = {}
Mf == dist
InitE == /\ kind = "exchange" /\ k \in Ks /\ maxit \in 1..MaxRounds /\ rnd = 0 /\ del = {} /\ add = {}
         /\ lab = [i \in T |-> 0] /\ margin = {} /\ st = "run" /\ everDel = {} /\ outs = {} /\ NoJ
InitJ == /\ kind = "joint" /\ rnd = 0 /\ st = "plan" /\ NoE
         /\ feats \in [1..JN -> Feats] /\ labs \in [1..JN -> Labs]
         /\ \A i \in 1..JN - 1 : feats[i] <= feats[i + 1]
         /\ dist = [i \in 1..JN |-> [j \in 1..JN |-> (feats[i] - 2 * j) * (feats[i] - 2 * j)]]
         /\ tol \in {1, 60}
         /\ plan = <<>> /\ pred = [j \in 1..JN |-> 0] /\ oto = <<>> /\ tgl = <<>>
Init == InitE \/ InitJ
\* exchange: fit a classifier (arbitrary decisions), withdraw, remove, add
FirstRound == /\ kind = "exchange" /\ st = "run" /\ rnd = 0
              /\ \E a \in [S -> Values], b \in [T -> Values] :
                   /\ lab' = Lab(b)
                   /\ \E p \in Picks(S, a, k) : del' = p
                   /\ margin' = MarginOf(T, {}, b)
                   /\ \E p \in Picks(MarginOf(T, {}, b), b, k) : add' = p
              /\ rnd' = 1 /\ st' = IF margin' = {} \/ maxit = 1 THEN "final" ELSE "run"
              /\ everDel' = del' /\ outs' = {} /\ UNCHANGED <<kind, k, maxit, jot>>
Exchange == /\ kind = "exchange" /\ st = "run" /\ rnd > 0
            /\ \E a \in [S -> Values], b \in [T -> Values] :
                 LET gone == Flipped(add, lab, Lab(b))
                     kept == add \ gone IN
                 /\ lab' = Lab(b)
                 /\ \E p \in Picks(S \ del, a, k) : del' = del \cup p
                 /\ margin' = MarginOf(T, kept, b)
                 /\ \E p \in Picks(MarginOf(T, kept, b), b, k) : add' = kept \cup p
                 /\ outs' = gone \cap add'
            /\ rnd' = rnd + 1 /\ st' = IF margin' = {} \/ rnd' = maxit THEN "final" ELSE "run"
            /\ everDel' = everDel \cup del' /\ UNCHANGED <<kind, k, maxit, jot>>
Finish == kind = "exchange" /\ st = "final" /\ st' = "done" /\ UNCHANGED <<kind, rnd, exch, jot>>
\* joint: optimal plan, then a classifier, until the OT loss settles
\* the estimator here is exact (predicts the labels it was given)
Al == [num |-> 1, den |-> 2]
MlOf(pr) == [i \in 1..JN |-> [j \in 1..JN |-> (labs[i] - pr[j]) * (labs[i] - pr[j])]]
Plan == /\ kind = "joint" /\ st = "plan" /\ FSum(Mf, JN) > 0
        /\ LET M == Joint(Mf, MlOf(pred), Al, JN, rnd = 0) IN
           \E p \in Perms(JN) : /\ Optimal(M, p, JN) /\ plan' = p
                                /\ oto' = Append(oto, PlanCost(M, p, JN))
        /\ st' = "fit" /\ UNCHANGED <<kind, rnd, exch, pred, tgl, feats, labs, dist, tol>>
Fit == /\ kind = "joint" /\ st = "fit"
       /\ pred' = [j \in 1..JN |-> labs[plan[j]]]
       /\ tgl' = Append(tgl, 0)
       /\ rnd' = rnd + 1
       /\ st' = IF rnd > 0 /\ Settled(oto[Len(oto)], oto[Len(oto) - 1], 1, [num |-> tol, den |-> 1]) THEN "done"
                ELSE IF rnd' = 4 THEN "done" ELSE "plan"
       /\ UNCHANGED <<kind, exch, plan, oto, feats, labs, dist, tol>>
Next == FirstRound \/ Exchange \/ Finish \/ Plan \/ Fit
Spec == Init /\ [][Next]_vars
\* ---- exchange
SourceNeverReturns == kind = "exchange" => everDel = del
BoundedExchange == kind = "exchange" => Cardinality(del) <= 2 * k * rnd /\ rnd <= maxit
LabelsCurrent == (kind = "exchange" /\ rnd > 0) => outs \subseteq margin   \* withdrawn points come back only through the margin
EndsForAReason == (kind = "exchange" /\ st = "done") => margin = {} \/ rnd = maxit
RemovesAll == kind = "exchange" => \/ del = S \/ Cardinality(del) >= Min2(NS, k * rnd)
Monotone == [][kind = "exchange" => del \subseteq del']_vars
\* ---- joint: with an exact estimator the transport loss never increases
Descent == (kind = "joint" /\ Len(oto) > 1) => \A i \in 3..Len(oto) : oto[i] <= oto[i - 1]
LossPerRound == kind = "joint" => Len(oto) - Len(tgl) \in {0, 1} /\ rnd = Len(tgl) /\ rnd <= 4
OnePass == (kind = "joint" /\ st = "done") => rnd >= 2
=============================================================================
