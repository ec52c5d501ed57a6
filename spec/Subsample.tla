----------------------------- MODULE Subsample -----------------------------
(* Subsampling n rows that carry a domain d[i] and a group g[i]; the size is  *)
(* [k, num, den] as in Splitters.                                             *)
EXTENDS Integers, Sequences, FiniteSets
Rng(s) == {s[i] : i \in 1..Len(s)}
Abs(v) == IF v < 0 THEN -v ELSE v
IsInt(z) == z.k = "int"
All(z, n) == IF IsInt(z) THEN z.num >= n ELSE z.num = z.den
Keep(z, n) == IF All(z, n) THEN n ELSE IF IsInt(z) THEN z.num ELSE (z.num * n) \div z.den
Admissible(z, n) == Keep(z, n) > 0 /\ (IsInt(z) \/ z.num <= z.den)
GroupRows(G, v) == {i \in 1..Len(G) : G[i] = v}
\* a group of c rows out of n keeps floor or ceil of its share of k
ShareOK(got, c, k, n) == Abs(got * n - k * c) < n
Fair(rows, G, k) == LET n == Len(G) IN
    \A v \in Rng(G) : ShareOK(Cardinality(rows \cap GroupRows(G, v)), Cardinality(GroupRows(G, v)), k, n)
Subset(rows, G, z, stratified) ==
    /\ Cardinality(rows) = Keep(z, Len(G))
    /\ stratified => Fair(rows, G, Keep(z, Len(G)))
=============================================================================
