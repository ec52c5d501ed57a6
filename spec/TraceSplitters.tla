-------------------------- MODULE TraceSplitters --------------------------
(* Judges the folds yielded by the real splitters.                           *)
EXTENDS Splitters, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
Over(e, f(_)) == UNION {F(f(e.folds[i])) : i \in 1..Len(e.folds)}
Admissible(e) ==
    CASE e.kind = "source_target" -> ShuffleOK(e.D, e.ts, e.tr, Full)
      [] e.kind = "domain" -> ShuffleOK(e.D, e.ts, e.tr, e.us)
      [] e.kind = "stratified" -> StratOK(e.G, e.ts, e.tr)
      [] e.kind = "lodo" -> \A h \in {e.D[i] : i \in Src(e.D)} : LodoOK(e.D, h, e.ts, e.tr)
Expected(e) == IF e.kind = "lodo" THEN Min(e.nsplits, NSources(e.D)) ELSE e.nsplits
SplitFails(e) ==
    IF ~Admissible(e)
    \* with fewer folds than domains the inadmissible domain may not come up
    THEN (IF e.err = "ValueError" \/ (e.kind = "lodo" /\ e.err = "") THEN {} ELSE {"inadmissible_sizes_" \o (IF e.err = "" THEN "accepted" ELSE e.err)})
    ELSE IF e.err # "" THEN {"split_raised_" \o e.err}
    ELSE (CASE e.kind = "source_target" -> Over(e, LAMBDA f : ShuffleFold(f, e.D, e.ts, e.tr, Full))
            [] e.kind = "domain" -> Over(e, LAMBDA f : ShuffleFold(f, e.D, e.ts, e.tr, e.us))
            [] e.kind = "stratified" -> Over(e, LAMBDA f : StratFold(f, e.D, e.G, e.ts, e.tr))
            [] e.kind = "lodo" -> Over(e, LAMBDA f : LodoFold(f, e.D, e.ts, e.tr)))
      \cup F({<<"number_of_folds", Len(e.folds) = Expected(e)>>,
              <<"get_n_splits", e.getn = Expected(e)>>,
              <<"not_reproducible", e.same /\ e.sameobj>>,
              <<"global_random_state", e.grng>>,
              <<"data_modified", ~e.modified>>})
      \cup (IF e.kind # "lodo" THEN {} ELSE
            F({<<"domain_held_out_twice", \A i, j \in 1..Len(e.folds) : i # j => Held(e.folds[i], e.D) # Held(e.folds[j], e.D)>>}))
CvFails(e) == IF e.err # "" THEN {"cross_validation_raised_" \o e.err}
              ELSE F({<<"rows_given_to_fit", \A i \in 1..Len(e.folds) : Rng(e.fits[i]) = Rng(e.folds[i].train) /\ Len(e.fits[i]) = Len(e.folds[i].train)>>,
                      <<"domains_given_to_fit", e.domok>>,
                      <<"number_of_fits", Len(e.fits) = Len(e.folds)>>})
Failing(e) == CASE e.ev = "split" -> SplitFails(e)
                [] e.ev = "cv" -> CvFails(e)
                [] OTHER -> {"unknown_event"}
Tags(e) == {e.ev \o "_" \o e.kind} \cup (IF e.ev = "split" THEN {(IF Admissible(e) THEN "accept_" ELSE "refuse_") \o e.kind} ELSE {})

Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
=============================================================================
