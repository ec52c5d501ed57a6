--------------------------- MODULE TraceSubspaces ---------------------------
EXTENDS Subspaces, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
\* xs, xt: rows; zs, zt: adapted rows in 1/100; Ms, Mt: images of the unit vectors less the image of zero, in 1/1000
Basic(e) == F({<<"inputs_changed", ~e.changed>>, <<"number_of_components", \A i \in DOMAIN e.zs : Len(e.zs[i]) = e.k>>,
               <<"one_row_per_row", Len(e.zs) = Len(e.xs) /\ Len(e.zt) = Len(e.xt)>>})
Comps(e) == 1..e.k
SaFails(e) == LET d == Len(e.xs[1])  n == Len(e.xt)
                  sp == [c \in Comps(e) |-> Spread(Col(e.zt, c))]
                  Ps(u) == Spread(Along(e.xs, u))  Pt(u) == Spread(Along(e.xt, u))
                  mt == [c \in Comps(e) |-> Col(e.Mt, c)]  ms == [c \in Comps(e) |-> Col(e.Ms, c)]
                  eps == 100 * n * n IN
    F({<<"targets_not_centred", \A c \in Comps(e) : Abs(Sum(Col(e.zt, c))) <= n>>,
       <<"sources_not_centred", \A c \in Comps(e) : Abs(Sum(Col(e.zs, c))) <= Len(e.xs)>>,
       <<"components_correlated", \A a, b \in Comps(e) : a = b \/ Abs(Cross(Col(e.zt, a), Col(e.zt, b))) <= eps + (sp[a] + sp[b]) \div 200>>,
       <<"components_not_in_order", \A a, b \in Comps(e) : a < b => sp[b] <= sp[a] + eps>>,
       <<"not_the_principal_direction", \A u \in Lattice(d) : sp[1] * Dot(u, u) + eps * Dot(u, u) >= 10000 * Pt(u)>>,
       <<"axes_not_orthonormal", \A a, b \in Comps(e) : Abs(Dot(mt[a], mt[b]) - (IF a = b THEN 1000000 ELSE 0)) <= 3000 * d>>,
       <<"spread_lost", e.k < d \/ Abs(Sum(sp) - 10000 * Sum([a \in 1..d |-> Spread(Col(e.xt, a))])) <= eps * d>>,
       \* with all components both sides get the same axes
       <<"sides_on_different_axes", e.k < d \/ \A a \in 1..d : \A c \in Comps(e) : Abs(e.Ms[a][c] - e.Mt[a][c]) <= 3>>,
       \* a source axis is the target axis projected on the source subspace
       <<"not_a_projection_of_the_target_axes", \A c \in Comps(e) : Abs(Dot(ms[c], ms[c]) - Dot(ms[c], mt[c])) <= 4000 * d>>,
       <<"not_the_source_subspace", e.k # 1 \/ d # 2 \/ Dot(ms[1], ms[1]) < 90000 \/ LET p == [a \in 1..d |-> ms[1][a] \div 10]
              q == Sum([a \in 1..d |-> Sum([b \in 1..d |-> ((p[a] * p[b]) \div 10) * Cross(Col(e.xs, a), Col(e.xs, b))])]) IN
            \A u \in Lattice(d) : (q \div 100) * Dot(u, u) * 103 + 200 * Dot(u, u) * Len(e.xs) * Len(e.xs) >= (Dot(p, p) \div 1000) * 100 * Ps(u)>>})
\* MMD gap of two halves, in 1/100
Gap(v, w) == Sum(v) \div Len(v) - Sum(w) \div Len(w)
All(e) == e.xs \o e.xt
Kv(e, v) == [i \in DOMAIN All(e) |-> Sum([j \in DOMAIN v |-> IF v[j] = 0 THEN 0 ELSE v[j] * Dot(All(e)[i], All(e)[j])])]
Probes(e) == LET n == Len(All(e)) IN {[k \in 1..n |-> IF k = i THEN 1 ELSE 0] : i \in 1..n}
             \cup {[k \in 1..n |-> IF k = i THEN 1 ELSE IF k = j THEN s ELSE 0] : i \in 1..n, j \in 1..n, s \in {-1, 1}}
\* quotient of a probe vector: spread of K v over |v|^2 + mu (gap of K v)^2, whole numbers
Quot(e, v) == LET y == Kv(e, v)  ns == Len(e.xs)  nt == Len(e.xt)  vv == Dot(v, v)
                  g == nt * Sum(SubSeq(y, 1, ns)) - ns * Sum(SubSeq(y, ns + 1, ns + nt))  q == ns * nt
                  den == 100 * vv + (((10 * e.mu) * ((g * g) \div q)) \div q) IN
              IF vv = 0 THEN 0 ELSE (Spread(y) * 100) \div den
ZAll(e) == e.zs \o e.zt
\* here zs, zt in 1/20
Uncorrelated(e) == LET Z == ZAll(e)  n == Len(Z)  sp == [c \in Comps(e) |-> Spread(Col(Z, c))] IN
    F({<<"components_correlated", \A a, b \in Comps(e) : a = b \/ Abs(Cross(Col(Z, a), Col(Z, b))) <= 60 * n * n + (sp[a] + sp[b]) \div 100>>})
TcaFails(e) == LET Z == ZAll(e)  n == Len(Z)  sp == [c \in Comps(e) |-> Spread(Col(Z, c))] IN Uncorrelated(e) \cup
    F({<<"components_not_in_order", \A a, b \in Comps(e) : a < b => sp[b] <= sp[a] + 60 * n * n + sp[a] \div 100>>,
       \* mu (gap)^2 summed over components is at most one
       <<"sides_too_far_apart", LET g == Sum([c \in Comps(e) |-> Gap(Col(e.zs, c), Col(e.zt, c)) * Gap(Col(e.zs, c), Col(e.zt, c))]) IN e.mu * g <= 4400 + 30 * e.mu * e.k>>,
       <<"a_better_direction_exists", ~e.linear \/ \A v \in Probes(e) : sp[1] + 60 * n * n + sp[1] \div 100 >= 400 * Quot(e, v)>>,
       <<"rows_do_not_follow_the_map", ~e.linear \/ \A i \in 1..n : \A c \in Comps(e) :
            Abs(50 * Z[i][c] - Sum([a \in DOMAIN All(e)[i] |-> All(e)[i][a] * e.Ms[a][c]])) <= 60>>})
\* here zs, zt in 1/1000
TjmFails(e) == LET Z == ZAll(e)  n == Len(Z) IN
    F({<<"scatter_is_not_one", \A a, b \in Comps(e) : Abs(Cross(Col(Z, a), Col(Z, b)) \div 1000 - (IF a = b THEN 1000 * n ELSE 0)) <= 20 * n + 3 * n * n>>,
       <<"sides_farther_apart_than_needed", ~e.linear \/ e.mu > 0 \/ LET g == Gap(Col(e.zs, 1), Col(e.zt, 1)) IN
            \A u \in Lattice(Len(e.xs[1])) : LET y == Along(All(e), u)  s == Spread(y) * Len(e.xs) * Len(e.xt)
                 h == Len(e.xt) * Sum(Along(e.xs, u)) - Len(e.xs) * Sum(Along(e.xt, u)) IN
               \* gap^2 <= (h / (ns nt))^2 / (spread / n)
               s = 0 \/ g * g <= ((((1000 * n * h * h) \div s) * 1000) \div (Len(e.xs) * Len(e.xt))) + 3000 + 20 * Abs(g)>>})
\* w: the one direction, in 1/100; T[d2 + 1]: exp(- distance / scale) in 1/10000
TableOk(e) == e.T = <<>> \/ \A k \in 0..4 : k * k + 1 > Len(e.T) \/ e.T[k * k + 1] < 200 \/ Abs(Ln(e.T[k * k + 1], 10000) + Tdiv(10000 * k, e.scale)) <= 20 + 10000 \div e.T[k * k + 1]
Ties(e) == {p \in (1..Len(e.xs)) \X (1..Len(e.xs)) : p[1] < p[2] /\ e.y[p[1]] = e.y[p[2]]}
RECURSIVE PairSum(_, _, _)
PairSum(e, v, P) == IF P = {} THEN 0 ELSE LET p == CHOOSE p \in P : TRUE  g == v[p[1]] - v[p[2]] IN (e.T[Dist2(e.xs[p[1]], e.xs[p[2]]) + 1] \div 10) * (g * g) + PairSum(e, v, P \ {p})
\* objective of a direction u: (numerator, denominator), less is better
Obj(e, v, vv) == CASE e.base = "pca" -> <<-Spread(v), vv>>
                   [] e.base = "flda" -> <<Within100(v, e.y), Total100(v)>>
                   [] OTHER -> <<PairSum(e, v, Ties(e)), vv>>
TslFails(e) == LET d == Len(e.xs[1])  W == [c \in Comps(e) |-> Col(e.Ms, c)] IN IF ~TableOk(e) THEN {"table"} ELSE
    F({<<"axes_not_orthonormal", \A a, b \in Comps(e) : Abs(Dot(W[a], W[b]) - (IF a = b THEN 1000000 ELSE 0)) <= 3000 * d>>,
       <<"sides_on_different_axes", e.Ms = e.Mt>>,
       <<"rows_do_not_follow_the_map", \A i \in DOMAIN e.xs : \A c \in Comps(e) : Abs(10 * e.zs[i][c] - Dot(e.xs[i], W[c])) <= 20>>,
       <<"a_better_direction_exists", ~e.best \/ LET w == [a \in 1..d |-> Tdiv(W[1][a], 20)]  o == Obj(e, Along(e.xs, w), Dot(w, w)) IN   \* w in 1/50
            \A u \in Lattice(d) : LET b == Obj(e, Along(e.xs, u), Dot(u, u)) IN
               \/ b[2] = 0
               \/ e.base = "flda" /\ Tdiv(o[1], (o[2] \div 1000) + 1) <= Tdiv(1000 * b[1], b[2]) + 40
               \/ e.base # "flda" /\ Tdiv(o[1], o[2] \div 100) <= Tdiv(100 * b[1], b[2]) + (IF e.base = "pca" THEN 300 + Abs(Tdiv(3 * b[1], b[2])) ELSE 3000 + Abs(Tdiv(5 * b[1], b[2])))>>})
Failing(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE
    LET b == Basic(e) IN IF b # {} THEN b ELSE
    CASE e.ev = "sa" -> SaFails(e) [] e.ev = "tca" -> TcaFails(e) [] e.ev = "tjm" -> TjmFails(e) [] e.ev = "tsl" -> TslFails(e) [] OTHER -> {"unknown_event"}
Tags(e) == {e.ev} \cup (IF e.ev = "tsl" THEN {e.base} ELSE {})

Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
=============================================================================
