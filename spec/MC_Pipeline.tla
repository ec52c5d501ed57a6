---------------------------- MODULE MC_Pipeline ----------------------------
(* Every program of up to MaxSteps steps over a menu of steps, on every       *)
(* domain layout of N rows; two runs side by side whose target labels differ. *)
EXTENDS Pipeline, Json, IOUtils
CONSTANTS MaxSteps, N, DomLabels, Menu
VARIABLES c, c2, prog, a, b
vars == <<c, c2, prog, a, b>>
DomLabels3 == {-2, -1, 1}
DomLabels4 == {-2, -1, 0, 1}

St(sel, kind, mask, w, d) == [sel |-> sel, kind |-> kind, mask |-> mask, wreq |-> w, dreq |-> d, last |-> FALSE]
MenuQ == {St("shared", "T", TRUE, "no", "unset"), St("perdomain", "Tn", TRUE, "yes", "no"),
          St("source", "T", TRUE, "unset", "no"), St("shared", "AY", TRUE, "no", "yes"),
          St("shared", "AW", TRUE, "no", "no"), St("perdomain", "AYW", TRUE, "yes", "yes"),
          St("shared", "AS", TRUE, "yes", "yes"), St("st", "T", FALSE, "no", "no"),
          St("target", "T", FALSE, "no", "no"), St("shared", "AD", FALSE, "no", "yes"),
          St("shared", "T", FALSE, "yes", "yes")}
Finals == {St("shared", "E", TRUE, "yes", "no"), St("perdomain", "E", TRUE, "no", "no"),
           St("source", "E", TRUE, "unset", "no"), St("shared", "E", TRUE, "yes", "yes"),
           St("st", "E", FALSE, "no", "no"), St("target", "E", FALSE, "yes", "no"),
           St("shared", "E", FALSE, "no", "unset")}
Progs == UNION {{Append(p, [f EXCEPT !.last = TRUE]) : p \in [1..m -> Menu], f \in Finals} : m \in 0..(MaxSteps-1)}
Init == /\ prog \in Progs
        /\ \E d \in [1..N -> DomLabels], wg \in BOOLEAN :
             c = [n |-> N, d |-> d, y |-> [i \in 1..N |-> 1 + (i % 2)], mv |-> -1, wgiven |-> wg,
                  w |-> [i \in 1..N |-> 500 + i]]
        /\ c2 = [c EXCEPT !.y = [i \in 1..N |-> IF IsTgt(c.d[i]) THEN 7 ELSE c.y[i]]]
        /\ a = St0(c) /\ b = St0(c2)
Fit == /\ ~a.err /\ a.k <= Len(prog)
       /\ a' = FitStep(a, prog, c) /\ b' = FitStep(b, prog, c2)
       /\ UNCHANGED <<c, c2, prog>>
Next == Fit
Spec == Init /\ [][Next]_vars

Masking(p, k) == \A i \in 1..k : p[i].mask
\* C04: as long as every step so far masks, target labels change nothing
NonInterference == LET k == Len(a.calls) IN
    (k > 0 /\ Masking(prog, k)) => /\ a.calls = b.calls /\ a.err = b.err
                                   /\ a.ct = b.ct
\* C07/C06: whatever an estimator receives for a row belongs to that row
Legit(x) == \A i \in 1..Len(x.ids) :
    LET id == x.ids[i] IN
    /\ x.y[i] \in {-1, c.y[id], AdapterY(id, -1)}
    /\ x.wgiven => x.w[i] \in {c.w[id]} \cup {AdapterW(k, id) : k \in 1..Len(prog)}
    /\ x.dgiven => x.d[i] \in {c.d[id], AdapterD(c.d[id]), AdapterD(AdapterD(c.d[id]))}
Aligned == \A k \in 1..Len(a.calls) : \A x \in a.calls[k] :
    /\ Len(x.y) = Len(x.ids) /\ Len(x.trail) = Len(x.ids)
    /\ x.wgiven => Len(x.w) = Len(x.ids)
    /\ Legit(x)
NoRowTwice == \A k \in 1..Len(a.calls) : \A x, z \in a.calls[k] :
    /\ Cardinality(Rng(x.ids)) = Len(x.ids)
    /\ x # z => Rng(x.ids) \cap Rng(z.ids) = {}
\* C08
UnawareSeesNoMask == \A k \in 1..Len(a.calls) : \A x \in a.calls[k] :
    (prog[k].kind = "E" /\ ~x.dgiven) => \A i \in 1..Len(x.y) : x.y[i] # -1
TransformersSeeAll == \A k \in 1..Len(a.calls) :
    (IsTrans(prog[k]) /\ prog[k].sel \in {"shared", "perdomain", "st"}
       /\ \A j \in 1..k : prog[j].sel \notin {"source", "target"} /\ prog[j].kind # "AS")
    => UNION {Rng(x.ids) : x \in a.calls[k]} = 1..N
\* C06
GroupsExact == \A k \in 1..Len(a.calls) : \A x \in a.calls[k] :
    prog[k].sel = "source" => \A i \in 1..Len(x.ids) : IsSrc(c.d[x.ids[i]])
Container == /\ Len(a.ct.trail) = Len(a.ct.ids)
             /\ a.ct.yset => Len(a.ct.y) = Len(a.ct.ids)
             /\ a.ct.wset => Len(a.ct.w) = Len(a.ct.ids)
             /\ a.ct.dset => Len(a.ct.d) = Len(a.ct.ids)
\* vacuity: the interesting situations occur
Reach1 == ~(Len(a.calls) = MaxSteps /\ Masking(prog, MaxSteps) /\ a.calls # <<>> /\ c.y # c2.y)
=============================================================================
