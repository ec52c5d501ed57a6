----------------------------- MODULE Splitters -----------------------------
(* Cross-validation over rows 1..n carrying domain labels D (>= 0: source).   *)
(* A size is [k, num, den]: "none" | "int" num | "frac" num/den.              *)
EXTENDS Integers, Sequences, FiniteSets
IsSrc(d) == d >= 0
Abs(v) == IF v < 0 THEN -v ELSE v
Rng(s) == {s[i] : i \in 1..Len(s)}
Src(D) == {i \in 1..Len(D) : IsSrc(D[i])}
Tgt(D) == {i \in 1..Len(D) : ~IsSrc(D[i])}
RowsOf(D, d) == {i \in 1..Len(D) : D[i] = d}
Domains(D) == Rng(D)
Floor(a, b) == a \div b
Ceil(a, b) == -((-a) \div b)
None(z) == z.k = "none"
IsInt(z) == z.k = "int"
\* ---- sizes of one side of n rows (test rounded up, train rounded down)
Raw(z, n, up) == IF IsInt(z) THEN z.num ELSE IF up THEN Ceil(z.num * n, z.den) ELSE Floor(z.num * n, z.den)
Default == [k |-> "frac", num |-> 1, den |-> 10]
NTest(n, ts, tr) == IF None(ts) THEN (IF None(tr) THEN Raw(Default, n, TRUE) ELSE n - Raw(tr, n, FALSE)) ELSE Raw(ts, n, TRUE)
NTrain(n, ts, tr) == IF None(tr) THEN n - NTest(n, ts, tr) ELSE Raw(tr, n, FALSE)
SizeOK(n, ts, tr) ==
    /\ n > 0
    /\ IsInt(ts) => (ts.num > 0 /\ ts.num < n)
    /\ IsInt(tr) => (tr.num > 0 /\ tr.num < n)
    /\ (ts.k = "frac" /\ tr.k = "frac") => ts.num * tr.den + tr.num * ts.den <= ts.den * tr.den
    /\ NTrain(n, ts, tr) + NTest(n, ts, tr) <= n
    /\ NTrain(n, ts, tr) > 0
\* ---- what every fold of a splitter has to look like
NoRepeat(s) == Cardinality(Rng(s)) = Len(s)
Disjoint(a, b) == Rng(a) \cap Rng(b) = {}
InRange(s, n) == Rng(s) \subseteq 1..n
SideSize(s, D, side) == Cardinality(Rng(s) \cap side)
\* thinning keeps a share us.num/us.den of every domain
Kept(D, us, d) == Floor(us.num * Cardinality(RowsOf(D, d)), us.den)
RECURSIVE KeptSum(_, _, _)
KeptSum(D, us, S) == IF S = {} THEN 0 ELSE LET d == CHOOSE d \in S : TRUE IN Kept(D, us, d) + KeptSum(D, us, S \ {d})
KeptSide(D, us, side) == KeptSum(D, us, {D[i] : i \in side})
Full == [num |-> 1, den |-> 1]
ShuffleOK(D, ts, tr, us) == SizeOK(KeptSide(D, us, Src(D)), ts, tr) /\ SizeOK(KeptSide(D, us, Tgt(D)), ts, tr)
FoldBasic(f, n) ==
    {<<"index_out_of_range", InRange(f.train, n) /\ InRange(f.test, n)>>,
     <<"repeated_row", NoRepeat(f.train) /\ NoRepeat(f.test)>>,
     <<"train_test_overlap", Disjoint(f.train, f.test)>>}
SizesOf(f, D, side, m, ts, tr, nm) ==
    {<<nm \o "_train_size", SideSize(f.train, D, side) = NTrain(m, ts, tr)>>,
     <<nm \o "_test_size", SideSize(f.test, D, side) = NTest(m, ts, tr)>>}
ShuffleFold(f, D, ts, tr, us) ==
    FoldBasic(f, Len(D))
    \cup SizesOf(f, D, Src(D), KeptSide(D, us, Src(D)), ts, tr, "source")
    \cup SizesOf(f, D, Tgt(D), KeptSide(D, us, Tgt(D)), ts, tr, "target")
    \cup {<<"both_sides_in_train", Rng(f.train) \cap Src(D) # {} /\ Rng(f.train) \cap Tgt(D) # {}>>,
          <<"both_sides_in_test", Rng(f.test) \cap Src(D) # {} /\ Rng(f.test) \cap Tgt(D) # {}>>,
          <<"domain_share", \A d \in Domains(D) :
              Cardinality((Rng(f.train) \cup Rng(f.test)) \cap RowsOf(D, d)) <= Kept(D, us, d)>>,
          \* when train and test use up the side, thinned domains are used up too
          <<"domain_share_complete", \A side \in {Src(D), Tgt(D)} :
              LET m == KeptSide(D, us, side) IN
              NTrain(m, ts, tr) + NTest(m, ts, tr) = m =>
                 \A d \in {D[i] : i \in side} :
                    Cardinality((Rng(f.train) \cup Rng(f.test)) \cap RowsOf(D, d)) = Kept(D, us, d)>>}
\* ---- stratified on (label, domain): G[i] is the group of row i
GroupRows(G, g) == {i \in 1..Len(G) : G[i] = g}
StratOK(G, ts, tr) ==
    LET n == Len(G)  gs == Rng(G) IN
    /\ SizeOK(n, ts, tr)
    /\ \A g \in gs : Cardinality(GroupRows(G, g)) >= 2
    /\ NTrain(n, ts, tr) >= Cardinality(gs) /\ NTest(n, ts, tr) >= Cardinality(gs)
StratFold(f, D, G, ts, tr) ==
    LET n == Len(D)  a == NTrain(n, ts, tr)  b == NTest(n, ts, tr)
        C(g) == Cardinality(GroupRows(G, g))
        A(g) == Cardinality(Rng(f.train) \cap GroupRows(G, g))
        B(g) == Cardinality(Rng(f.test) \cap GroupRows(G, g)) IN
    FoldBasic(f, n)
    \cup {<<"train_size", Len(f.train) = a>>, <<"test_size", Len(f.test) = b>>,
          <<"train_share_of_group", \A g \in Rng(G) : Abs(A(g) * n - a * C(g)) < n>>,
          <<"test_share_of_group", \A g \in Rng(G) : Abs(B(g) * (n - a) - b * (C(g) - A(g))) < n - a>>}
\* ---- leave one domain out
Held(f, D) == {-D[i] : i \in {j \in Rng(f.train) \cup Rng(f.test) : j \in Tgt(D)}}
LodoRows(D, h) == {i \in Src(D) : D[i] # h} \cup RowsOf(D, -h)
LodoOK(D, h, ts, tr) ==
    LET S == LodoRows(D, h) IN SizeOK(Cardinality(S \cap Src(D)), ts, tr) /\ SizeOK(Cardinality(S \cap Tgt(D)), ts, tr)
LodoFold(f, D, ts, tr) ==
    LET hs == Held(f, D) IN
    FoldBasic(f, Len(D)) \cup
    {<<"one_domain_held_out", Cardinality(hs) = 1>>} \cup
    (IF Cardinality(hs) # 1 THEN {} ELSE
     LET h == CHOOSE h \in hs : TRUE
         S == LodoRows(D, h)  ns == Cardinality(S \cap Src(D))  nt == Cardinality(S \cap Tgt(D)) IN
     {<<"held_out_domain_as_source", (Rng(f.train) \cup Rng(f.test)) \cap RowsOf(D, h) = {}>>,
      <<"rows_of_other_domains", (Rng(f.train) \cup Rng(f.test)) \subseteq S>>}
     \cup SizesOf(f, D, Src(D), ns, ts, tr, "source") \cup SizesOf(f, D, Tgt(D), nt, ts, tr, "target")
     \cup {<<"some_domain_left_out", NTrain(ns, ts, tr) + NTest(ns, ts, tr) = ns =>
              \A d \in {D[i] : i \in Src(D)} \ {h} : RowsOf(D, d) \subseteq Rng(f.train) \cup Rng(f.test)>>})
NSources(D) == Cardinality({D[i] : i \in Src(D)})
Min(a, b) == IF a < b THEN a ELSE b
=============================================================================
