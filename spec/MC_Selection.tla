---------------------------- MODULE MC_Selection ----------------------------
(* A search over candidates and folds, in any order of fitting and scoring.     *)
(* Shares: the broken design that keeps one estimator across fits (no clone)    *)
(* so that a score may come from an estimator of another fold.                  *)
EXTENDS Selection
CONSTANTS N, Cands, Shares, SrcLabels, TgtLabels
VARIABLES D, folds, fit, asked, score, best, final
vars == <<D, folds, fit, asked, score, best, final>>
Rows == 1..N
Y == [i \in Rows |-> i % 2]
Cell == [i \in Rows |-> (i * i) % 3]
NF == 2
Targets == {-2}
None == {0}
Init == /\ D \in {f \in [Rows -> SrcLabels \cup TgtLabels] : (\E i \in Rows : IsSrc(f[i])) /\ (\E i \in Rows : ~IsSrc(f[i]))}
        /\ folds \in [1..NF -> {S \in SUBSET Rows : S # {} /\ S # Rows /\ (\E i \in Rows \ S : IsSrc(D[i]))}]
        /\ fit = [c \in Cands |-> [f \in 1..NF |-> None]]
        /\ asked = [c \in Cands |-> [f \in 1..NF |-> {}]]
        /\ score = [c \in Cands |-> [f \in 1..NF |-> -1]]
        /\ best = 0 /\ final = None
Pred(c, S, r) == Level(Cell, c, S, r) % 2
Fit(c, f) == /\ fit[c][f] = None /\ best = 0
             /\ LET S == FitSet("shared", D, Y, TRUE, Rows \ folds[f], 1) IN
                fit' = IF Shares THEN [fit EXCEPT ![c] = [g \in 1..NF |-> IF g = f \/ fit[c][g] # None THEN S ELSE None]]
                       ELSE [fit EXCEPT ![c][f] = S]
             /\ UNCHANGED <<D, folds, asked, score, best, final>>
Score(c, f) == /\ fit[c][f] # None /\ score[c][f] = -1
               /\ asked' = [asked EXCEPT ![c][f] = folds[f]]
               /\ score' = [score EXCEPT ![c][f] = Cardinality({r \in folds[f] : Pred(c, fit[c][f], r) = Y[r]})]
               /\ UNCHANGED <<D, folds, fit, best, final>>
Mean(c) == score[c][1] * Cardinality(folds[2]) + score[c][2] * Cardinality(folds[1])
Choose == /\ best = 0 /\ \A c \in Cands, f \in 1..NF : score[c][f] # -1
          /\ best' \in {c \in Cands : \A o \in Cands : Mean(o) < Mean(c) \/ (Mean(o) = Mean(c) /\ c <= o)}
          /\ UNCHANGED <<D, folds, fit, asked, score, final>>
Refit == /\ best # 0 /\ final = None /\ final' = FitSet("shared", D, Y, TRUE, Rows, 1)
         /\ UNCHANGED <<D, folds, fit, asked, score, best>>
AFit == \E c \in Cands, f \in 1..NF : Fit(c, f)
AScore == \E c \in Cands, f \in 1..NF : Score(c, f)
Next == AFit \/ AScore \/ Choose \/ Refit
Spec == Init /\ [][Next]_vars
Unseen == \A c \in Cands, f \in 1..NF : fit[c][f] = None \/ fit[c][f] \cap asked[c][f] = {}
NoTargetLabel == \A c \in Cands, f \in 1..NF : fit[c][f] = None \/ \A i \in fit[c][f] : IsSrc(D[i])
OwnFold == \A c \in Cands, f \in 1..NF : fit[c][f] = None \/ fit[c][f] = FitSet("shared", D, Y, TRUE, Rows \ folds[f], 1)
ChosenIsBest == best # 0 => \A o \in Cands : Mean(o) <= Mean(best)
FinalSeesAll == final # None => \A i \in Rows : IsSrc(D[i]) => i \in final
\* selectors split the training rows, and nobody answers for rows of another group
Partition == \A sel \in {"st", "per"}, f \in 1..NF : LET tr == Rows \ folds[f] IN
    /\ \A r, q \in tr : LET a == FitSet(sel, D, Y, FALSE, tr, r)  b == FitSet(sel, D, Y, FALSE, tr, q) IN a = b \/ a \cap b = {}
    /\ UNION FitSets(sel, D, Y, FALSE, tr) = tr
=============================================================================
