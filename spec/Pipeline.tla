------------------------------ MODULE Pipeline ------------------------------
(* Fitting and applying a pipeline of selectors (skada/base.py).  A program  *)
(* is a sequence of steps; each step is a selector (which rows, how many     *)
(* estimators) around a base estimator.  What travels between the steps is a *)
(* container: rows (by the id of the sample they belong to), their feature   *)
(* trail, and the labels, weights and domains produced so far.               *)
(*                                                                           *)
(* step: [sel, kind, mask, wreq, dreq, last]                                 *)
(*   sel   shared | perdomain | source | target | st                         *)
(*   kind  T  transformer            Tn  transformer without fit_transform   *)
(*         AW adapter producing weights     AY ... labels                    *)
(*         AYW ... labels and weights       AD ... domains                   *)
(*         AS adapter keeping a subset of the rows     E  final predictor    *)
(*   mask  mask target labels       last  marked as the last step            *)
(*   wreq, dreq  request for sample_weight / sample_domain: yes, no, unset   *)
(* caller: [n, d, y, mv, wgiven, w] (mv is the mask value of the labels)     *)
EXTENDS Domains, TLC

IsTrans(s) == s.kind # "E"
Strict(s) == s.last \/ ~IsTrans(s)

MaskTargets(y, d, mv) == [i \in 1..Len(y) |-> IF IsTgt(d[i]) THEN mv ELSE y[i]]

Cont0(c) == [ids |-> [i \in 1..c.n |-> i], trail |-> [i \in 1..c.n |-> 0],
             yset |-> FALSE, y |-> <<>>, wset |-> FALSE, w |-> <<>>,
             dset |-> FALSE, d |-> <<>>]

EffD(ct, c) == IF ct.dset THEN ct.d ELSE c.d
\* labels made available to a step
EffY(s, ct, c) == IF ct.yset THEN ct.y
                  ELSE IF s.mask THEN MaskTargets(c.y, c.d, c.mv) ELSE c.y
\* the caller's weights reach a step unless it refuses them
WGiven(s, ct, c) == ct.wset \/ (c.wgiven /\ s.wreq # "no")
EffW(s, ct, c) == IF ct.wset THEN ct.w ELSE Take(c.w, ct.ids)

(* selection of rows by source-only / target-only selectors: the container   *)
(* keeps these rows only, with everything that was available to the step     *)
Cut(ct, pos, s, c) ==
    LET d == EffD(ct, c) IN
    [ids |-> Take(ct.ids, pos), trail |-> Take(ct.trail, pos),
     yset |-> TRUE,
     y |-> Take(IF ct.yset THEN ct.y ELSE c.y, pos),
     wset |-> WGiven(s, ct, c),
     w |-> IF WGiven(s, ct, c) THEN Take(EffW(s, ct, c), pos) ELSE <<>>,
     dset |-> TRUE, d |-> Take(d, pos)]
Select(s, ct, c) ==
    CASE s.sel = "source" -> Cut(ct, SrcPos(EffD(ct, c)), s, c)
      [] s.sel = "target" -> Cut(ct, TgtPos(EffD(ct, c)), s, c)
      [] OTHER -> ct

\* metadata neither requested nor refused is an error where it would be lost
Unrouted(s, ct, c) == Strict(s) /\ \/ s.wreq = "unset" /\ WGiven(s, ct, c)
                                   \/ s.dreq = "unset"
MissingSide(s, ct, c) == s.sel = "st" /\ (SrcPos(EffD(ct, c)) = <<>> \/ TgtPos(EffD(ct, c)) = <<>>)

GetsD(s) == s.dreq = "yes"
GetsW(s, ct, c) == s.wreq = "yes" /\ WGiven(s, ct, c)

\* rows (positions) a step may train on: an estimator that is not told the
\* domains must not see masked labels
Kept(s, y, mv) == IF s.kind = "E" /\ ~GetsD(s)
                  THEN SelectSeq([i \in 1..Len(y) |-> i], LAMBDA i : y[i] # mv)
                  ELSE [i \in 1..Len(y) |-> i]

\* the groups of rows that get an estimator of their own: key -> positions
GroupKeys(s, D) == CASE s.sel = "perdomain" -> Rng(D)
                     [] s.sel = "st" -> {1, -1}
                     [] OTHER -> {0}
InGroup(s, key, d) == CASE s.sel = "perdomain" -> d = key
                        [] s.sel = "st" -> (d >= 0) = (key = 1)
                        [] OTHER -> TRUE
\* everything a step's estimators are given: one call per group
Call(s, k, ct, c, key) ==
    LET d == EffD(ct, c)
        y == EffY(s, ct, c)
        pos == SelectSeq(Kept(s, y, c.mv), LAMBDA i : InGroup(s, key, d[i])) IN
    [k |-> k, key |-> key, ids |-> Take(ct.ids, pos), trail |-> Take(ct.trail, pos), y |-> Take(y, pos),
     wgiven |-> GetsW(s, ct, c),
     w |-> IF GetsW(s, ct, c) THEN Take(EffW(s, ct, c), pos) ELSE <<>>,
     dgiven |-> GetsD(s),
     d |-> IF GetsD(s) THEN Take(d, pos) ELSE <<>>]
CallKeys(s, ct, c) ==
    LET kept == Kept(s, EffY(s, ct, c), c.mv)
        D == EffD(ct, c) IN
    GroupKeys(s, [i \in 1..Len(kept) |-> D[kept[i]]])
Calls(s, k, ct, c) == {Call(s, k, ct, c, key) : key \in CallKeys(s, ct, c)}

(* ---- what the recording base estimators compute                          *)
Sum(q) == FoldSeq(LAMBDA a, b : a + b, 0, q)
Tag(call) == (Sum(call.ids) % 97) + 1
NextTrail(t, k, tag) == (t * 31 + k * 7 + tag) % 10007
AdapterW(k, id) == 1000 * k + id
AdapterY(id, mv) == IF id % 2 = 0 THEN mv ELSE 21 + 2 * (id % 3)
AdapterD(d) == IF d >= 0 THEN d + 5 ELSE d - 5
SubKeep(id) == id % 3 # 0

\* tag of the estimator answering a row of domain d (0 if there is none)
TagOf(s, calls, d) ==
    LET m == {x \in calls : InGroup(s, x.key, d)} IN
    IF m = {} THEN 0 ELSE Tag(CHOOSE x \in m : TRUE)

After(s, k, ct, c, calls) ==
    LET D == EffD(ct, c)
        n == Len(ct.ids)
        tr == IF s.kind \in {"T", "Tn"}
              THEN [i \in 1..n |-> NextTrail(ct.trail[i], k, TagOf(s, calls, D[i]))]
              ELSE ct.trail
        base == [ct EXCEPT !.trail = tr] IN
    CASE s.kind \in {"T", "Tn", "E"} -> base
      [] s.kind = "AW" -> [base EXCEPT !.wset = TRUE, !.w = [i \in 1..n |-> AdapterW(k, ct.ids[i])]]
      [] s.kind = "AY" -> [base EXCEPT !.yset = TRUE, !.y = [i \in 1..n |-> AdapterY(ct.ids[i], c.mv)]]
      [] s.kind = "AYW" -> [base EXCEPT !.yset = TRUE, !.y = [i \in 1..n |-> AdapterY(ct.ids[i], c.mv)],
                                        !.wset = TRUE, !.w = [i \in 1..n |-> AdapterW(k, ct.ids[i])]]
      [] s.kind = "AD" -> [base EXCEPT !.dset = TRUE, !.d = [i \in 1..n |-> AdapterD(D[i])]]
      [] s.kind = "AS" ->
           LET pos == SelectSeq([i \in 1..n |-> i], LAMBDA i : SubKeep(ct.ids[i])) IN
           [ids |-> Take(ct.ids, pos), trail |-> Take(ct.trail, pos),
            yset |-> TRUE, y |-> Take(EffY(s, ct, c), pos),
            wset |-> GetsW(s, ct, c), w |-> IF GetsW(s, ct, c) THEN Take(EffW(s, ct, c), pos) ELSE <<>>,
            dset |-> TRUE, d |-> Take(D, pos)]

(* ---- the pipeline as a state machine: [k, ct, calls, err]                *)
St0(c) == [k |-> 1, ct |-> Cont0(c), calls |-> <<>>, err |-> FALSE]
FitStep(st, prog, c) ==
    LET s == prog[st.k]
        ct == Select(s, st.ct, c) IN
    IF Unrouted(s, ct, c) \/ MissingSide(s, ct, c)
    THEN [st EXCEPT !.err = TRUE]
    ELSE LET cs == Calls(s, st.k, ct, c) IN
         [k |-> st.k + 1, ct |-> After(s, st.k, ct, c, cs), calls |-> Append(st.calls, cs), err |-> FALSE]
RECURSIVE RunFrom(_, _, _)
RunFrom(st, prog, c) == IF st.err \/ st.k > Len(prog) THEN st ELSE RunFrom(FitStep(st, prog, c), prog, c)
Run(prog, c) == RunFrom(St0(c), prog, c)

\* answers at prediction time: rows with ids/domains pd, through every step
AnswerTag(prog, st, k, d) == TagOf(prog[k], st.calls[k], d)
RECURSIVE Trail(_, _, _, _, _)
Trail(prog, st, k, d, t) ==
    IF k > Len(prog) THEN t
    ELSE Trail(prog, st, k + 1, d,
               IF prog[k].kind \in {"T", "Tn", "E"} THEN NextTrail(t, k, AnswerTag(prog, st, k, d)) ELSE t)
\* a per-domain step without an estimator for the row's domain must refuse
UnknownDomain(prog, st, pd) ==
    \E k \in 1..Len(prog) : prog[k].sel = "perdomain" /\ \E i \in 1..Len(pd) :
        ~(\E x \in st.calls[k] : x.key = pd[i])
=============================================================================
