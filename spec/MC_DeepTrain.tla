---------------------------- MODULE MC_DeepTrain ----------------------------
(* Fits of several epochs over a small data set: batches are any sets of rows, *)
(* two runs that differ only in target labels go side by side.                 *)
EXTENDS DeepTrain
CONSTANTS N, MaxFits, MaxEpochs, BadReset, BadLeak
VARIABLES D, ontarget, ya, yb, la, lb, fits, epoch, cnt, inEpoch, bank, seen
vars == <<D, ontarget, ya, yb, la, lb, fits, epoch, cnt, inEpoch, bank, seen>>
Same(p, q) == \A i \in 1..N : Source(D[i]) => p[i] = q[i]
Init == /\ D \in [1..N -> {-2, -1, 0, 1}] /\ ontarget \in BOOLEAN
        /\ ya \in [1..N -> {0, 1}] /\ yb \in [1..N -> {0, 1}] /\ Same(ya, yb)
        /\ la = 0 /\ lb = 0 /\ fits = 0 /\ epoch = 0 /\ cnt = 0 /\ inEpoch = FALSE
        /\ bank = [i \in 1..N |-> 0] /\ seen = {}
Fixed == UNCHANGED <<D, ontarget, ya, yb>>
Begin == /\ ~inEpoch /\ fits < MaxFits /\ fits' = fits + 1 /\ epoch' = 0
         /\ cnt' = IF BadReset THEN cnt ELSE 0
         /\ bank' = [i \in 1..N |-> 0] /\ seen' = {} /\ UNCHANGED <<la, lb, inEpoch>> /\ Fixed
EpochOn == /\ ~inEpoch /\ fits > 0 /\ epoch < MaxEpochs /\ epoch' = epoch + 1 /\ cnt' = cnt + 1 /\ inEpoch' = TRUE
           /\ UNCHANGED <<la, lb, fits, bank, seen>> /\ Fixed
\* a loss is any injective function of what is handed over: here a code of labels by row
RECURSIVE Code(_, _)
Code(y, ix) == IF ix = <<>> THEN 0 ELSE (y[Head(ix)] + 1) + 3 * Code(y, Tail(ix))
LossOf(y, B) == LET rows == SelectSeq([i \in 1..N |-> i], LAMBDA i : i \in B)
                    base == SelectSeq(rows, LAMBDA i : Source(D[i]) = ~ontarget)
                    adapt == SelectSeq(rows, LAMBDA i : BadLeak \/ Source(D[i])) IN Code(y, base) + 1000 * Code(y, adapt)
Batch == /\ inEpoch /\ \E B \in SUBSET (1..N) : B # {} /\
             /\ la' = LossOf(ya, B) /\ lb' = LossOf(yb, B)
             /\ bank' = [i \in 1..N |-> IF i \in B /\ ~Source(D[i]) THEN epoch ELSE bank[i]]
             /\ seen' = seen \cup {i \in B : ~Source(D[i])}
         /\ inEpoch' = FALSE /\ UNCHANGED <<fits, epoch, cnt>> /\ Fixed
Next == Begin \/ EpochOn \/ Batch
Spec == Init /\ [][Next]_vars
NoLeak == ~ontarget => la = lb
Counts == cnt = Counter(epoch)
BankOnlySeen == \A i \in 1..N : bank[i] # 0 => i \in seen
Partition == \A i \in 1..N : (i \in Rng(Rows(D, TRUE))) # (i \in Rng(Rows(D, FALSE)))
=============================================================================
