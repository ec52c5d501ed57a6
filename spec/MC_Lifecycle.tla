---------------------------- MODULE MC_Lifecycle ----------------------------
(* The lifecycle machine next to an implementation with hidden memory: what   *)
(* an object keeps from earlier fits, the nested estimator objects share, the *)
(* defaults classes share, and the caller's arrays.  The three disciplines    *)
(* (clone nested estimators, reset in fit, work on copies) make them agree;   *)
(* each one dropped breaks an invariant (see the _Bad configurations).        *)
EXTENDS Lifecycle, TLC
CONSTANTS Objs, Params, Data, MaxOps, CloneNested, ResetInFit, CopyData, CopyOnClone
VARIABLES obj, real, nest, caller, answers, n
\* real[o]: [par, model, left]; model: what the answers are computed from
vars == <<obj, real, nest, caller, answers, n>>
None == [par |-> 0, model |-> <<>>, left |-> <<>>]
Init == /\ obj = [o \in Objs |-> Absent] /\ real = [o \in Objs |-> None]
        /\ nest = <<>> /\ caller = [d \in Data |-> "as given"] /\ answers = {} /\ n = 0
Step(a) == n < MaxOps /\ Enabled_(obj, a) /\ obj' = Apply(obj, a) /\ n' = n + 1
\* an answer is the model the object would use; a model is the settings, the data and any residue
Fitting(o, p, d) ==
    LET residue == (IF CloneNested THEN <<>> ELSE nest) \o (IF ResetInFit THEN <<>> ELSE real[o].left)
                   \o (IF caller[d] = "as given" THEN <<>> ELSE <<"changed data">>)
    IN [par |-> p, model |-> <<p, d, residue>>, left |-> <<d>>]
New(o, p) == /\ Step(Op("new", o, 0, p, 0))
             /\ real' = [real EXCEPT ![o] = [None EXCEPT !.par = p]] /\ UNCHANGED <<nest, caller, answers>>
Set(o, p) == /\ Step(Op("set", o, 0, p, 0))
             /\ real' = [real EXCEPT ![o].par = p] /\ UNCHANGED <<nest, caller, answers>>
Clone(o, q) == /\ Step(Op("clone", o, q, 0, 0))
               /\ real' = [real EXCEPT ![q] = IF CopyOnClone THEN [None EXCEPT !.par = real[o].par] ELSE [real[o] EXCEPT !.model = <<>>]]
               /\ UNCHANGED <<nest, caller, answers>>
Copy(o, q) == Step(Op("copy", o, q, 0, 0)) /\ real' = [real EXCEPT ![q] = real[o]] /\ UNCHANGED <<nest, caller, answers>>
Fit(o, d) == /\ Step(Op("fit", o, 0, 0, d))
             /\ real' = [real EXCEPT ![o] = Fitting(o, real[o].par, d)]
             /\ nest' = (IF CloneNested THEN nest ELSE <<d>>)
             /\ caller' = (IF CopyData THEN caller ELSE [caller EXCEPT ![d] = "changed"])
             /\ UNCHANGED answers
Search(o, q, p, d) == /\ Step(Op("search", o, q, p, d))
                      /\ real' = [real EXCEPT ![q] = Fitting(q, p, d)]
                      /\ UNCHANGED <<nest, caller, answers>>
Query(o) == /\ Step(Op("query", o, 0, 0, 0))
            /\ answers' = answers \cup {[of |-> o, fit |-> obj[o].fit, got |-> real[o].model]}
            /\ UNCHANGED <<real, nest, caller>>
Next == \/ \E o \in Objs, p \in Params : New(o, p)
        \/ \E o \in Objs, p \in Params : Set(o, p)
        \/ \E o, q \in Objs : Clone(o, q)
        \/ \E o, q \in Objs : Copy(o, q)
        \/ \E o \in Objs, d \in Data : Fit(o, d)
        \/ \E o, q \in Objs, p \in Params, d \in Data : Search(o, q, p, d)
        \/ \E o \in Objs : Query(o)
Spec == Init /\ [][Next]_vars
\* C29: an answer depends on the settings and data of the last fit only
FreshAnswers == \A a \in answers : a.got = <<a.fit[1], a.fit[2], <<>> >>
\* C28: settings are what was configured, whatever was fitted or cloned
SettingsKept == \A o \in Objs : real[o].par = obj[o].par
\* C05
CallerIntact == \A d \in Data : caller[d] = "as given"
NestedIntact == nest = <<>>
=============================================================================
