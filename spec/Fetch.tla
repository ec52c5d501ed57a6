------------------------------- MODULE Fetch --------------------------------
(* What a fetcher owes its caller, given what is on disk: which rows, which    *)
(* labels, when it may use the network, and what survives an interruption.     *)
EXTENDS Integers, Sequences, FiniteSets
Rng(s) == {s[i] : i \in DOMAIN s}
\* ---------------------------------------------------------------- content
\* a table is a sequence of [dom, cat, id, skip]: rows of the archive in reading order
\* labels of files sorted by category: position of the category among the chosen ones, from 0
Rows(tab, dom, cats) == SelectSeq(tab, LAMBDA r : r.dom = dom /\ ~r.skip /\ (cats = {} \/ r.cat \in cats))
\* chosen categories that exist in the domain (an empty choice stands for all of them)
Chosen(tab, dom, cats) == {tab[i].cat : i \in {j \in DOMAIN tab : tab[j].dom = dom /\ (cats = {} \/ tab[j].cat \in cats)}}
LabelOf(r, chosen, indexed) == IF indexed THEN Cardinality({c \in chosen : c < r.cat}) ELSE r.cat
Answer(tab, dom, cats, indexed) ==
    LET rs == Rows(tab, dom, cats)  ch == Chosen(tab, dom, cats) IN
    [i \in DOMAIN rs |-> <<rs[i].id, LabelOf(rs[i], ch, indexed)>>]
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Rng(s) \cup Rng(t) :
    Cardinality({i \in DOMAIN s : s[i] = x}) = Cardinality({i \in DOMAIN t : t[i] = x})
\* ---------------------------------------------------------------- cache
\* cached: "no", "yes", or "maybe" after an interrupted publication
\* what an undisturbed call may do: [data answers allowed, downloads allowed]
MayFail(cached, net, allowed) == CASE cached = "yes" -> FALSE
                                   [] cached = "no" -> ~net \/ ~allowed
                                   [] OTHER -> ~net \/ ~allowed
MayAnswer(cached, net, allowed) == cached # "no" \/ (net /\ allowed)
MaxDownloads(cached, allowed) == IF cached = "yes" \/ ~allowed THEN 0 ELSE 1
\* what is known of the cache after a call that answered, failed, or was cut
After(cached, outcome) == CASE cached = "yes" -> "yes"
                            [] outcome = "data" -> "yes"
                            [] outcome = "refused" -> cached   \* wrong arguments: nothing was tried
                            [] outcome = "failed" -> cached    \* an archive or folder left by an earlier cut may still serve
                            [] OTHER -> "maybe"
=============================================================================
