----------------------------- MODULE DeepTrain ------------------------------
(* One step of deep training: how a mixed batch is handed to the two losses,   *)
(* what the total is, and what counters, schedules and memory keep of it.      *)
EXTENDS Integers, Sequences, FiniteSets
Rng(s) == {s[i] : i \in DOMAIN s}
Abs(z) == IF z < 0 THEN -z ELSE z
Source(d) == d >= 0
Rows(D, src) == SelectSeq([i \in DOMAIN D |-> i], LAMBDA i : Source(D[i]) = src)
Pick(s, ix) == [k \in DOMAIN ix |-> s[ix[k]]]
\* rows the base loss is computed on
BaseRows(D, ontarget) == Rows(D, ~ontarget)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* total for per-sample base losses: sum over base rows of w * (base + reg * adapt); n rows
Total(base, w, reg, adapt) == Sum([k \in DOMAIN base |-> w[k] * (base[k] + reg * adapt)])
\* ---------------------------------------------------------------- counters
\* after k epochs of a fit the counter shows k, whatever happened before
Counter(epoch) == epoch
Nap(n, max, scale) == (n * scale) \div max
\* ---------------------------------------------------------------- memory
\* momentum m / den
Moved(old, new, m, den) == ((den - m) * old + m * new)
Near(a, b, tol) == Abs(a - b) <= tol
=============================================================================
