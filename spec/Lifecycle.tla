----------------------------- MODULE Lifecycle -----------------------------
(* The life of estimator objects.  An object is what it was configured with   *)
(* plus what it was last fitted with; nothing else about its past, about other*)
(* objects or about the caller's arrays may matter.                           *)
(*   obj[o].par   index of the parameter setting, 0 while o does not exist     *)
(*   obj[o].fit   <<>> or <<parameter setting at fit, data set>>               *)
EXTENDS Integers, Sequences, FiniteSets
Rng(s) == {s[i] : i \in 1..Len(s)}
Absent == [par |-> 0, fit |-> <<>>]
\* an operation: [op, o, o2, p, d]; unused fields are 0
Op(op, o, o2, p, d) == [op |-> op, o |-> o, o2 |-> o2, p |-> p, d |-> d]
Exists(s, o) == s[o].par # 0
Fitted(s, o) == Exists(s, o) /\ s[o].fit # <<>>
Enabled_(s, a) ==
    CASE a.op = "new" -> ~Exists(s, a.o)
      [] a.op = "set" -> Exists(s, a.o) /\ s[a.o].par # a.p
      [] a.op = "clone" -> Exists(s, a.o) /\ a.o # a.o2
      [] a.op = "copy" -> Fitted(s, a.o) /\ a.o # a.o2
      [] a.op = "fit" -> Exists(s, a.o)
      [] a.op = "badfit" -> Exists(s, a.o)
      [] a.op = "query" -> Fitted(s, a.o)
      [] a.op = "score" -> Fitted(s, a.o)
      [] a.op = "search" -> Exists(s, a.o) /\ a.o # a.o2
      [] OTHER -> FALSE
Apply(s, a) ==
    CASE a.op = "new" -> [s EXCEPT ![a.o] = [par |-> a.p, fit |-> <<>>]]
      [] a.op = "set" -> [s EXCEPT ![a.o].par = a.p]
      [] a.op = "clone" -> [s EXCEPT ![a.o2] = [par |-> s[a.o].par, fit |-> <<>>]]
      [] a.op = "copy" -> [s EXCEPT ![a.o2] = s[a.o]]
      [] a.op = "fit" -> [s EXCEPT ![a.o].fit = <<s[a.o].par, a.d>>]
      \* the best estimator of a parameter search over the single setting p
      [] a.op = "search" -> [s EXCEPT ![a.o2] = [par |-> a.p, fit |-> <<a.p, a.d>>]]
      \* after a refused fit nothing is promised until the next fit
      [] a.op = "badfit" -> [s EXCEPT ![a.o].fit = <<>>]
      \* queries and scores change nothing
      [] OTHER -> s
\* An answer may be judged while the settings at fit are still the settings.
Judged(s, o) == Fitted(s, o) /\ s[o].fit[1] = s[o].par
=============================================================================
