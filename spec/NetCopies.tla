----------------------------- MODULE NetCopies ------------------------------
(* Deep nets as objects with a history: what a net knows is the sequence of    *)
(* trainings behind its weights; copying a net copies that and nothing else.   *)
EXTENDS Integers, Sequences, FiniteSets
\* a net: alive, ready (initialized), v (history behind its weights), c (setting)
Absent == [alive |-> FALSE, ready |-> FALSE, v |-> <<>>, c |-> 0]
\* given: the base module is handed over as an instance (weights live on) or a class (made anew)
\* carry: some other trained part is handed over as an instance (domain classifier)
Trained(given, carry, n, s, warm) ==
    LET goes_on == given = "instance" \/ (warm /\ n.ready)
        h == IF goes_on \/ carry THEN n.v ELSE <<>>
        how == IF given = "instance" THEN "train" ELSE IF goes_on THEN "on" ELSE "anew"
    IN [n EXCEPT !.ready = TRUE, !.v = Append(h, <<how, s, n.c>>)]
\* asking an uninitialized net for features initializes it
Woken(given, carry, n, s) ==
    IF n.ready THEN n
    ELSE [n EXCEPT !.ready = TRUE, !.v = IF given = "instance" THEN n.v ELSE Append(IF carry THEN n.v ELSE <<>>, <<"made", s, 0>>)]
Cloned(given, carry, n) == [n EXCEPT !.ready = FALSE, !.v = IF given = "instance" \/ carry THEN n.v ELSE <<>>]
Step(given, carry, nets, a) ==
    CASE a.op = "new" -> [nets EXCEPT ![a.i] = [Absent EXCEPT !.alive = TRUE]]
      [] a.op = "train" -> [nets EXCEPT ![a.i] = Trained(given, carry, @, a.s, a.warm)]
      [] a.op = "set" -> [nets EXCEPT ![a.i].c = a.s]
      [] a.op = "clone" -> [nets EXCEPT ![a.j] = Cloned(given, carry, nets[a.i])]
      [] a.op \in {"copy", "pickle"} -> [nets EXCEPT ![a.j] = nets[a.i]]
      [] a.op = "features" -> [nets EXCEPT ![a.i] = Woken(given, carry, @, a.s)]
      [] OTHER -> nets
Possible(nets, a) ==
    CASE a.op = "new" -> ~nets[a.i].alive
      [] a.op \in {"train", "set", "features", "cv"} -> nets[a.i].alive
      [] a.op \in {"clone", "copy", "pickle"} -> nets[a.i].alive /\ a.i # a.j
      [] OTHER -> nets[a.i].alive /\ nets[a.i].ready
RECURSIVE After(_, _, _, _, _)
After(given, carry, nets, ops, k) == IF k = 0 THEN nets ELSE Step(given, carry, After(given, carry, nets, ops, k - 1), ops[k])
=============================================================================
