------------------------------ MODULE Registry ------------------------------
(* A registry of domains.  An entry is [name, id, rows, labs, has]: rows are  *)
(* sample identities, labs the label of each row (a tuple), has = labelled.   *)
(* A registry is a set of entries.                                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT NAN
Names(R) == {e.name : e \in R}
IdsOf(R) == {e.id : e \in R}
Entry(R, nm) == CHOOSE e \in R : e.name = nm
Unique(R) == Cardinality(Names(R)) = Cardinality(R) /\ Cardinality(IdsOf(R)) = Cardinality(R)
Positive(R) == \A e \in R : e.id > 0
\* what an addition adds; name "" lets the registry choose an unused name
Same(e, d) == e.rows = d.rows /\ e.labs = d.labs /\ e.has = d.has
Added(R, N, nm, d) ==
    /\ R \subseteq N
    /\ Cardinality(N) = Cardinality(R) + 1
    /\ Unique(N) /\ Positive(N)
    /\ \A e \in N \ R : Same(e, d) /\ (nm # "" => e.name = nm)
Refused(R, N, nm) == nm # "" /\ nm \in Names(R) /\ N = R
\* ---- packing
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Fill(s, v) == [i \in 1..Len(s) |-> v]
Unlabelled == <<-2>>          \* labels are recorded doubled: -1 is the unlabelled mark
LabelsOf(e) == IF e.has THEN e.labs ELSE Fill(e.rows, Unlabelled)
MaskOf(e, m) == LET k == IF e.has /\ Len(e.labs) > 0 THEN Len(e.labs[1]) ELSE 1 IN Fill(e.rows, [j \in 1..k |-> m])
Pick(R, ns) == [i \in 1..Len(ns) |-> Entry(R, ns[i])]
PackRows(R, S, T) == Concat([i \in 1..Len(S) |-> Entry(R, S[i]).rows]) \o Concat([i \in 1..Len(T) |-> Entry(R, T[i]).rows])
PackDoms(R, S, T) == Concat([i \in 1..Len(S) |-> Fill(Entry(R, S[i]).rows, Entry(R, S[i]).id)])
                  \o Concat([i \in 1..Len(T) |-> Fill(Entry(R, T[i]).rows, -Entry(R, T[i]).id)])
PackLabs(R, S, T, masked, m) ==
    Concat([i \in 1..Len(S) |-> LabelsOf(Entry(R, S[i]))])
    \o Concat([i \in 1..Len(T) |-> IF masked THEN MaskOf(Entry(R, T[i]), m) ELSE LabelsOf(Entry(R, T[i]))])
=============================================================================
