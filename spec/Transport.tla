----------------------------- MODULE Transport ------------------------------
(* Moving source rows onto target rows.                                         *)
EXTENDS Ratios
\* costs of moving a row
L1(a, b) == Sum([i \in DOMAIN a |-> Abs(a[i] - b[i])])
Cost(m, a, b) == IF m = "cityblock" THEN L1(a, b) ELSE Dist2(a, b)
\* ways to hand every member of the larger side to one of the smaller, all in equal shares
Shares(nBig, nSmall) == {f \in [1..nBig -> 1..nSmall] : \A j \in 1..nSmall : Cardinality({i \in 1..nBig : f[i] = j}) * nSmall = nBig}
PlanCost(m, f, big, small) == Sum([i \in DOMAIN big |-> Cost(m, big[i], small[f[i]])])
Best(m, big, small) == LET F == Shares(Len(big), Len(small))  c == [f \in F |-> PlanCost(m, f, big, small)] IN {f \in F : \A g \in F : c[f] <= c[g]}
\* 12 times the image of source row i under plan f
Image(f, xs, xt, i) == [d \in DOMAIN xs[i] |->
    IF Len(xs) >= Len(xt) THEN 12 * xt[f[i]][d]
    ELSE (12 * Sum([j \in DOMAIN xt |-> IF f[j] = i THEN xt[j][d] ELSE 0])) \div (Len(xt) \div Len(xs))]
\* second moments times 4 n^2: about the mean, or about zero
Mom(S, a, b, raw, half) == IF raw THEN 4 * Len(S) * S2(S, a, b) ELSE Shrunk(S, a, b, half /\ Len(S[1]) > 1)
=============================================================================
