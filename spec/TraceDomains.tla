--------------------------- MODULE TraceDomains ---------------------------
(* Judges calls recorded from skada.utils against Domains.                    *)
EXTENDS Domains, TLC, Json, IOUtils
NAN == -9999999
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen

F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}

SplitFails(e) ==
    IF e.err # "" THEN {"split_raised_" \o e.err}
    ELSE IF Len(e.outs) # 2 * Len(e.arrays) THEN {"split_number_of_parts"}
    ELSE F({<<"split_source_rows", \A k \in 1..Len(e.arrays) :
                e.outs[2*k-1] = IF e.given[k] THEN SplitSrc(e.arrays[k], e.D) ELSE <<>> >>,
            <<"split_target_rows", \A k \in 1..Len(e.arrays) :
                e.outs[2*k] = IF e.given[k] THEN SplitTgt(e.arrays[k], e.D) ELSE <<>> >>,
            <<"split_none_passed_through", \A k \in 1..Len(e.arrays) :
                e.outgiven[2*k-1] = e.given[k] /\ e.outgiven[2*k] = e.given[k] >>,
            <<"split_dtype", e.dtypes_kept>>,
            <<"input_modified", ~e.modified>>})

PerDomainFails(e) ==
    IF e.err # "" THEN {"perdomain_raised_" \o e.err}
    ELSE LET sk == {x.d : x \in Rng(e.src)}
             tk == {x.d : x \in Rng(e.tgt)} IN
       F({<<"perdomain_source_keys", sk = SrcDomains(e.D) /\ Len(e.src) = Cardinality(sk)>>,
          <<"perdomain_target_keys", tk = TgtDomains(e.D) /\ Len(e.tgt) = Cardinality(tk)>>,
          <<"perdomain_rows", \A x \in Rng(e.src) \cup Rng(e.tgt) :
               /\ Len(x.outs) = Len(e.arrays)
               /\ \A k \in 1..Len(e.arrays) :
                    /\ x.given[k] = e.given[k]
                    /\ x.outs[k] = IF e.given[k] THEN SplitDom(e.arrays[k], e.D, x.d) ELSE <<>> >>,
          <<"domain_indices", \A x \in Rng(e.idx) : x.pos = DomPos(e.D, x.d)>>,
          <<"domain_indices_keys", {x.d : x \in Rng(e.idx)} = Domains(e.D)
                                   /\ Len(e.idx) = Cardinality(Domains(e.D))>>,
          <<"domain_indices_split", /\ {x.d : x \in Rng(e.sidx)} = SrcDomains(e.D)
                                    /\ {x.d : x \in Rng(e.tidx)} = TgtDomains(e.D)
                                    /\ \A x \in Rng(e.sidx) \cup Rng(e.tidx) : x.pos = DomPos(e.D, x.d)>>,
          <<"source_mask", e.mask = [i \in 1..Len(e.D) |-> IsSrc(e.D[i])]>>,
          <<"input_modified", ~e.modified>>})

MergeFails(e) ==
    LET D == IF e.dgiven THEN e.D ELSE AssumedD(e.pairs[1])
        fits == \A k \in 1..Len(e.pairs) : MergeFits(e.pairs[k], D) IN
    IF ~fits THEN (IF e.err = "ValueError" THEN {} ELSE {"merge_accepted_inconsistent_parts"})
    ELSE IF e.err # "" THEN {"merge_raised_" \o e.err}
    ELSE IF Len(e.outs) # Len(e.pairs) THEN {"merge_number_of_outputs"}
    ELSE F({<<"merge_rows", \A k \in 1..Len(e.pairs) :
                 (e.pairs[k].sgiven /\ e.pairs[k].tgiven) => e.outs[k] = MergePair(e.pairs[k], D, NAN)>>,
            <<"merge_fill", \A k \in 1..Len(e.pairs) :
                 ~(e.pairs[k].sgiven /\ e.pairs[k].tgiven) => e.outs[k] = MergePair(e.pairs[k], D, NAN)>>,
            <<"merge_sample_domain", e.outD = D>>,
            <<"merge_dtype", e.dtypes_kept>>,
            <<"input_modified", ~e.modified>>})

\* validation: e.fn is "Xy" or "X"; e.dkind is "array", "list", "none", "scalar"
EffD(e) == CASE e.dkind \in {"array", "list"} -> e.D
             [] e.dkind = "scalar" -> Scalar(e.D[1], e.n)
             [] e.dkind = "none" /\ e.fn = "Xy" -> DeriveXY(e.masked)
             [] OTHER -> DeriveX(e.n)
MustRefuse(e) ==
    \/ e.dkind = "none" /\ ~e.flags.auto
    \/ e.dkind = "none" /\ e.fn = "Xy" /\ ~(\E i \in 1..e.n : e.masked[i])
    \/ e.dkind \in {"array", "list"} /\ Len(e.D) # e.n
    \/ ~(e.dkind = "none" /\ ~e.flags.auto) /\ Violated(EffD(e), e.flags) # {}
    \/ ~(e.dkind = "none" /\ ~e.flags.auto) /\ Unlisted(EffD(e), e.flags) # {}
ValidateFails(e) ==
    IF MustRefuse(e)
    THEN IF e.err = "ValueError" THEN {}
         ELSE IF e.err = "" THEN
             (IF e.dkind = "none" THEN {"accepted_underivable_domain"}
              ELSE IF e.dkind \in {"array", "list"} /\ Len(e.D) # e.n THEN {"accepted_wrong_length"}
              ELSE {"accepted_despite_" \o c : c \in Violated(EffD(e), e.flags)}
                   \cup (IF Unlisted(EffD(e), e.flags) # {} THEN {"accepted_unlisted_domain"} ELSE {}))
         ELSE {"refused_with_" \o e.err}
    ELSE IF e.err # "" THEN {"refused_admissible_" \o e.err}
    ELSE F({<<"returned_domain", e.outD = EffD(e)>>,
            <<"returned_rows", e.outX = e.X>>,
            <<"returned_labels", e.fn = "Xy" => e.outy = e.y>>,
            <<"input_modified", ~e.modified>>})

\* entry points: omitting the domain equals passing the derived one
EquivFails(e) == F({<<"omitted_domain_differs_from_derived", e.same>>,
                    <<"raised_" \o e.err, e.err = "">>})

Failing(e) == CASE e.ev = "split" -> SplitFails(e)
                [] e.ev = "perdomain" -> PerDomainFails(e)
                [] e.ev = "merge" -> MergeFails(e)
                [] e.ev = "validate" -> ValidateFails(e)
                [] e.ev = "equiv" -> EquivFails(e)
                [] OTHER -> {"unknown_event"}
Tags(e) == CASE e.ev = "validate" ->
                  {"validate_" \o e.fn \o (IF MustRefuse(e) THEN "_refuse" ELSE "_accept"), "domain_" \o e.dkind}
                  \cup (IF Len(EffD(e)) = e.n THEN {"violates_" \o c : c \in Violated(EffD(e), e.flags)} ELSE {})
             [] e.ev = "merge" -> {IF \A k \in 1..Len(e.pairs) : e.pairs[k].sgiven /\ e.pairs[k].tgiven
                                   THEN "merge_full" ELSE "merge_fill"}
             [] OTHER -> {e.ev}

Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
============================================================================
