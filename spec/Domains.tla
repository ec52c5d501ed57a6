------------------------------ MODULE Domains ------------------------------
(* Samples and their domain labels: splitting, merging, validating and       *)
(* deriving sample_domain (skada/utils.py).  A label >= 0 is a source domain, *)
(* a label < 0 a target domain.  A data set is a sequence of rows; a parallel *)
(* array is a sequence of the same length whose element i belongs to row i.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

IsSrc(d) == d >= 0
IsTgt(d) == d < 0

Rng(s) == {s[i] : i \in DOMAIN s}

\* positions i of D satisfying P, in order (a sequence)
PosWhere(D, P(_)) == SelectSeq([i \in 1..Len(D) |-> i], LAMBDA i : P(D[i]))
SrcPos(D) == PosWhere(D, IsSrc)
TgtPos(D) == PosWhere(D, IsTgt)
DomPos(D, d) == PosWhere(D, LAMBDA x : x = d)

Take(A, pos) == [k \in 1..Len(pos) |-> A[pos[k]]]

SplitSrc(A, D) == Take(A, SrcPos(D))
SplitTgt(A, D) == Take(A, TgtPos(D))
SplitDom(A, D, d) == Take(A, DomPos(D, d))

Domains(D) == Rng(D)
SrcDomains(D) == {d \in Rng(D) : IsSrc(d)}
TgtDomains(D) == {d \in Rng(D) : IsTgt(d)}

\* number of source rows among the first i
RankSrc(D, i) == Cardinality({j \in 1..i : IsSrc(D[j])})
RankTgt(D, i) == Cardinality({j \in 1..i : IsTgt(D[j])})

\* put the parts back
Merge(S, T, D) == [i \in 1..Len(D) |->
                     IF IsSrc(D[i]) THEN S[RankSrc(D, i)] ELSE T[RankTgt(D, i)]]

\* a missing side is filled with the mask of the present side's label kind
MaskOf(kind, nan) == IF kind = "discrete" THEN -1 ELSE nan
Filled(n, m, w) == [i \in 1..n |-> [j \in 1..w |-> m]]
Width(A) == IF A = <<>> THEN 1 ELSE Len(A[1])
NSrc(D) == Len(SrcPos(D))
NTgt(D) == Len(TgtPos(D))

(* merging one pair under D; "present" flags say which sides were given      *)
MergePair(p, D, nan) ==
    LET S == IF p.sgiven THEN p.s ELSE Filled(NSrc(D), MaskOf(p.kind, nan), Width(p.t))
        T == IF p.tgiven THEN p.t ELSE Filled(NTgt(D), MaskOf(p.kind, nan), Width(p.s))
    IN Merge(S, T, D)

MergeFits(p, D) == /\ p.sgiven => Len(p.s) = NSrc(D)
                   /\ p.tgiven => Len(p.t) = NTgt(D)
                   /\ p.sgiven \/ p.tgiven

\* sample_domain assumed by merge when none is given: the pair stacked
AssumedD(p) == [i \in 1..Len(p.s) |-> 1] \o [i \in 1..Len(p.t) |-> -2]

(* ------------------------------------------------------------------------ *)
(* validation                                                                *)
Abs(x) == IF x < 0 THEN -x ELSE x
CommonIdx(D) == \E a, b \in Domains(D) : a # b /\ Abs(a) = Abs(b)
\* which switches the labels D violate
Violated(D, f) ==
    {c \in {"allow_source", "allow_target", "allow_multi_source",
            "allow_multi_target", "allow_common_domain_idx"} :
        \/ c = "allow_source" /\ ~f.source /\ SrcDomains(D) # {}
        \/ c = "allow_target" /\ ~f.target /\ TgtDomains(D) # {}
        \/ c = "allow_multi_source" /\ ~f.msource /\ Cardinality(SrcDomains(D)) > 1
        \/ c = "allow_multi_target" /\ ~f.mtarget /\ Cardinality(TgtDomains(D)) > 1
        \/ c = "allow_common_domain_idx" /\ ~f.common /\ CommonIdx(D)}
\* allow_domains: explicit labels, plus a wildcard for each sign
Unlisted(D, f) == IF ~f.restrict THEN {}
                  ELSE {d \in Domains(D) : d \notin Rng(f.domains)
                          /\ ~(IF d >= 0 THEN f.anysource ELSE f.anytarget)}

(* deriving a missing sample_domain                                          *)
DeriveXY(masked) == [i \in 1..Len(masked) |-> IF masked[i] THEN -2 ELSE 1]
DeriveX(n) == [i \in 1..n |-> -1]
Scalar(v, n) == [i \in 1..n |-> v]
=============================================================================
