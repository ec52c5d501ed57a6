--------------------------- MODULE MC_Generators ----------------------------
(* Calls of generators drawing from random streams.  A call with an integer    *)
(* seed has its own stream; a call with a shared stream object advances that   *)
(* object only; the global stream is advanced only by calls without a seed.    *)
(* Leaky: calls with a seed reseed the global stream (a broken design).        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Seeds, Objs, MaxCalls, Leaky
VARIABLES glob, pos, calls, log
\* a stream is [seed, at]; a value drawn is <<seed, at>>
vars == <<glob, pos, calls, log>>
Init == glob = [seed |-> 0, at |-> 0] /\ pos = [o \in Objs |-> 0] /\ calls = 0 /\ log = <<>>
Draw(seed, at, n) == [i \in 1..n |-> <<seed, at + i>>]
Seeded(s, n) == /\ calls < MaxCalls /\ calls' = calls + 1
                /\ log' = Append(log, [key |-> <<"int", s, n>>, data |-> Draw(s, 0, n)])
                /\ glob' = (IF Leaky THEN [seed |-> s, at |-> n] ELSE glob) /\ UNCHANGED pos
Shared(o, n) == /\ calls < MaxCalls /\ calls' = calls + 1
                /\ log' = Append(log, [key |-> <<"obj", pos[o], n>>, data |-> Draw(100, pos[o], n)])
                /\ pos' = [pos EXCEPT ![o] = @ + n] /\ UNCHANGED glob
Free(n) == /\ calls < MaxCalls /\ calls' = calls + 1
           /\ log' = Append(log, [key |-> <<"glob", glob.at, n>>, data |-> Draw(glob.seed, glob.at, n)])
           /\ glob' = [glob EXCEPT !.at = @ + n] /\ UNCHANGED pos
Next == \E n \in {1, 2} : (\E s \in Seeds : Seeded(s, n)) \/ (\E o \in Objs : Shared(o, n)) \/ Free(n)
Spec == Init /\ [][Next]_vars
Repeatable == \A i, j \in DOMAIN log : log[i].key = log[j].key => log[i].data = log[j].data
GlobalOwn == glob.seed = 0
=============================================================================
