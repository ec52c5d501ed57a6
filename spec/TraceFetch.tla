----------------------------- MODULE TraceFetch -----------------------------
EXTENDS Fetch, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen, cached, past
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
\* e.got: one entry per answered domain: [dom, rows: <<id, label>>...]; e.doms: what was asked for
Contents(e) ==
    IF [k \in DOMAIN e.got |-> e.got[k].dom] # e.doms THEN {"domains_of_answer"} ELSE
    F({<<"rows_or_labels", \A k \in DOMAIN e.got : LET want == Answer(e.table, e.doms[k], Rng(e.cats), e.indexed) IN
            IF e.shuffle THEN SameBag(e.got[k].rows, want) ELSE e.got[k].rows = want>>,
       <<"features_of_row", e.whole>>,
       <<"label_names", e.names = {} \/ ~e.indexed \/ \A k \in DOMAIN e.got : e.names = Chosen(e.table, e.doms[k], Rng(e.cats))>>,
       <<"same_seed_other_order", \A p \in Rng(past) : (p.key = e.key) => p.got = e.got>>})
Outcome(e) == IF e.fault # "none" /\ e.hit THEN (IF e.err = "" /\ e.got # <<>> THEN "data" ELSE "cut")
              ELSE IF e.err = "" THEN "data" ELSE "failed"
FetchFails(e) ==
    LET c == cached[e.ds]  o == Outcome(e)  names == [e EXCEPT !.names = Rng(e.names)] IN
    IF e.badarg THEN F({<<"accepted_unknown_domain", e.err = "ValueError">>, <<"download_for_unknown_domain", e.downloads = 0>>})
    ELSE F({<<"downloads", e.downloads <= MaxDownloads(c, e.allowed)>>,
            <<"answer_without_data", o = "data" => MayAnswer(c, e.net, e.allowed)>>,
            <<"failed_although_" \o (IF c = "yes" THEN "cached" ELSE "network_was_up"), o = "failed" => MayFail(c, e.net, e.allowed)>>,
            <<"error_class", (o = "failed" /\ MayFail(c, e.net, e.allowed)) => e.err \in {"OSError", "URLError", "FileNotFoundError"}>>,
            <<"outside_data_home", ~e.stray>>})
         \cup (IF o = "data" THEN Contents(names) ELSE {})
Failing(e) == CASE e.ev = "begin" -> {}
                [] e.ev = "fetch" -> FetchFails(e)
                [] OTHER -> {"unknown_event"}
Tags(e) == IF e.ev = "begin" THEN {} ELSE
           {e.ds, "cache_" \o cached[e.ds], IF e.net THEN "net" ELSE "offline", "outcome_" \o (IF e.badarg THEN "refused" ELSE Outcome(e)), "home_" \o e.via}
           \cup (IF e.fault # "none" /\ e.hit THEN {e.fault} ELSE {}) \cup (IF e.shuffle THEN {"shuffle"} ELSE {}) \cup (IF e.cats # <<>> THEN {"categories"} ELSE {})
           \cup (IF ~e.allowed THEN {"download_not_allowed"} ELSE {}) \cup (IF e.alldoms THEN {"all_domains"} ELSE {})
None4 == [d \in {"surf", "decaf", "home", "amazon"} |-> "no"]
Init == l = 1 /\ bad = <<>> /\ seen = {} /\ cached = None4 /\ past = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
             /\ cached' = IF e.ev = "begin" THEN None4
                          ELSE [cached EXCEPT ![e.ds] = After(@, IF e.badarg THEN "refused" ELSE Outcome(e))]
             /\ past' = IF e.ev = "begin" THEN <<>>
                        ELSE IF e.badarg \/ Outcome(e) # "data" \/ e.key = 0 THEN past ELSE Append(past, [key |-> e.key, got |-> e.got])
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen, cached, past>>
=============================================================================
