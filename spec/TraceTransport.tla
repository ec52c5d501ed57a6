--------------------------- MODULE TraceTransport ---------------------------
EXTENDS Transport, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
Near2(a, b, t) == \A i \in DOMAIN a : Abs(a[i] - b[i]) <= t
Basic(e) == F({<<"inputs_changed", ~e.changed>>, <<"one_row_per_row", Len(e.z) = Len(e.q)>>})
\* z: images in 1/1200, q: source rows asked about
EmdFails(e) == LET big == IF Len(e.xs) >= Len(e.xt) THEN e.xs ELSE e.xt  small == IF Len(e.xs) >= Len(e.xt) THEN e.xt ELSE e.xs
                   B == Best(e.metric, big, small)
                   At(f, i) == [d \in DOMAIN e.xs[i] |-> 100 * Image(f, e.xs, e.xt, i)[d]]
                   Fits(f, k) == IF e.own THEN Near2(e.z[k], At(f, k), 2)
                                 ELSE \E i \in Nearest(e.q[k], e.xs) : \A d \in DOMAIN e.q[k] : Abs(e.z[k][d] - At(f, i)[d] - 1200 * (e.q[k][d] - e.xs[i][d])) <= 2 IN
    F({<<"not_a_cheapest_plan", \E f \in B : \A k \in DOMAIN e.q : Fits(f, k)>>})
\* z in 1/1000
Dirs(d) == IF d = 1 THEN {<<1>>, <<-1>>} ELSE {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<1, 1>>, <<1, -1>>, <<-1, 1>>, <<-1, -1>>}
Dot(a, b) == Sum([i \in DOMAIN a |-> a[i] * b[i]])
MaxCost(e) == CHOOSE v \in {Dist2(e.xs[i], e.xt[j]) : i \in DOMAIN e.xs, j \in DOMAIN e.xt} : \A i \in DOMAIN e.xs, j \in DOMAIN e.xt : Dist2(e.xs[i], e.xt[j]) <= v
\* two targets on a line: the share of the second one, in 1/1000
Second(e, k) == (e.z[k][1] - 1000 * e.xt[1][1]) \div (e.xt[2][1] - e.xt[1][1])
Clear(v) == v > 30 /\ v < 970
BlendFails(e) == LET d == Len(e.xs[1]) IN
    F({<<"outside_the_targets", \A k \in DOMAIN e.z, u \in Dirs(d) : \E j \in DOMAIN e.xt : Dot(u, e.z[k]) <= 1000 * Dot(u, e.xt[j]) + 3>>,
       <<"shares_of_the_targets", ~e.own \/ \A c \in 1..d : Abs(Len(e.xt) * Sum([k \in DOMAIN e.z |-> e.z[k][c]]) - 1000 * Len(e.xs) * S1(e.xt, c)) <= e.slack * Len(e.xs) * Len(e.xt)>>,
       <<"order_on_the_line", e.class \/ d > 1 \/ \A i, k \in DOMAIN e.z : e.q[i][1] < e.q[k][1] => e.z[i][1] <= e.z[k][1] + 2>>,
       \* log odds of the second target grow by 2 (x - x')(y2 - y1) / reg; reg in 1/10, of the largest cost if normed
       <<"not_the_entropic_plan", e.class \/ d > 1 \/ Len(e.xt) # 2 \/ e.xt[1] = e.xt[2] \/ \A i, k \in DOMAIN e.z :
            LET a == Second(e, i)  b == Second(e, k)  r == e.reg * (IF e.normed THEN MaxCost(e) ELSE 1) IN
            ~Clear(a) \/ ~Clear(b) \/ Abs((Ln(a, 1000 - a) - Ln(b, 1000 - b)) - Tdiv(200000 * (e.q[i][1] - e.q[k][1]) * (e.xt[2][1] - e.xt[1][1]), r)) <= 900>>})
\* maps: one per domain, with rows X, matrix M (row a is the image of unit vector a, in 1/100), offset c (in 1/100)
\* image of row x in 1/100
Img(m, x) == [b \in DOMAIN x |-> m.c[b] + Sum([a \in DOMAIN x |-> x[a] * m.M[a][b]])]
\* M^T C M in 1/100 of (variance)
Carried(m, raw, half) == LET d == Len(m.M)  n2 == 4 * Len(m.X) * Len(m.X)
      P == [a \in 1..d |-> [j \in 1..d |-> Sum([b \in 1..d |-> (Mom(m.X, a, b, raw, half) * m.M[b][j])])]] IN
      [i \in 1..d |-> [j \in 1..d |-> Tdiv(Sum([a \in 1..d |-> (P[a][j] \div 10) * m.M[a][i]]), n2 * 10)]]
Own(S, raw, half) == LET d == Len(S[1]) IN [i \in 1..d |-> [j \in 1..d |-> Tdiv(100 * Mom(S, i, j, raw, half), 4 * Len(S) * Len(S))]]
Trace2(A) == Sum([i \in DOMAIN A |-> A[i][i]])
Alike(A, B) == \A i, j \in DOMAIN A : Abs(A[i][j] - B[i][j]) <= 4 + (Trace2(A) + Trace2(B)) \div 25
Symmetric(m) == \A a, b \in DOMAIN m.M : Abs(m.M[a][b] - m.M[b][a]) <= 4
Positive(m) == \A a \in DOMAIN m.M : m.M[a][a] >= -2 /\ (Len(m.M) = 1 \/ m.M[1][1] * m.M[2][2] - m.M[1][2] * m.M[2][1] >= -500)
Iso(S, raw) == Len(S[1]) = 1 \/ (Mom(S, 1, 1, raw, FALSE) = Mom(S, 2, 2, raw, FALSE) /\ Mom(S, 1, 2, raw, FALSE) = 0)
Plain(S, raw) == Len(S[1]) = 1 \/ Mom(S, 1, 2, raw, FALSE) = 0
MeanOf(m) == [b \in DOMAIN m.X[1] |-> Tdiv(Sum([i \in DOMAIN m.X |-> Img(m, m.X[i])[b]]), Len(m.X))]
\* z: adapted training rows of domain k, in 1/100
RowsFollow(e) == \A k \in DOMAIN e.maps : \A i \in DOMAIN e.maps[k].X : Near2(e.maps[k].z[i], Img(e.maps[k], e.maps[k].X[i]), 12)
\* inverse of a 2 x 2 or 1 x 1 map in 1/100
Det2(m) == IF Len(m.M) = 1 THEN m.M[1][1] * 100 ELSE m.M[1][1] * m.M[2][2] - m.M[1][2] * m.M[2][1]
Inv(m) == IF Len(m.M) = 1 THEN <<<<Tdiv(10000, m.M[1][1])>>>>
          ELSE [a \in 1..2 |-> [b \in 1..2 |-> Tdiv((IF a = b THEN m.M[3 - a][3 - a] ELSE -m.M[a][b]) * 10000, Det2(m))]]
Huge(e) == \E k \in DOMAIN e.maps : \E i \in DOMAIN e.maps[k].M, j \in DOMAIN e.maps[k].M : Abs(e.maps[k].M[i][j]) > 20000 \/ Abs(e.maps[k].c[j]) > 2000000
AffineFails(e) == IF Huge(e) THEN {"map_blows_up"} ELSE LET s == e.maps[1]  t == e.maps[Len(e.maps)]  d == Len(s.M)  K == Len(e.maps) - 1 IN
    F({<<"rows_do_not_follow_the_map", RowsFollow(e)>>} \cup
      (IF e.kind = "monge" THEN {
         <<"domains_keep_different_covariances", \A k \in 2..Len(e.maps) : Alike(Carried(e.maps[k], e.raw, FALSE), Carried(s, e.raw, FALSE))>>,
         <<"domains_keep_different_means", e.raw \/ \A k \in 2..Len(e.maps) : Near2(MeanOf(e.maps[k]), MeanOf(s), 12)>>,
         <<"common_mean_is_not_the_sources_mean", e.raw \/ \A b \in 1..d : Abs(K * MeanOf(s)[b] - Sum([k \in 1..K |-> Tdiv(100 * S1(e.maps[k].X, b), Len(e.maps[k].X))])) <= 20>>,
         <<"map_turns_or_flips", \A k \in DOMAIN e.maps : Symmetric(e.maps[k]) /\ Positive(e.maps[k])>>,
         <<"not_the_centre_of_the_sources", (\E k \in 1..K : Det2(e.maps[k]) < 1500) \/ \A a, b \in 1..d :
              Abs(Sum([k \in 1..K |-> Inv(e.maps[k])[a][b]]) - (IF a = b THEN 100 * K ELSE 0)) <= 12 * K>>}
       ELSE {
         <<"covariance_not_carried_over", Alike(Carried(s, e.raw, e.half), Own(t.X, e.raw, e.half))>>,
         <<"mean_not_carried_over", e.raw \/ Near2(MeanOf(s), IF e.kind = "linear" THEN [b \in 1..d |-> Tdiv(100 * S1(t.X, b), Len(t.X))] ELSE Zero(d), 8)>>,
         <<"offset_without_centring", ~e.raw \/ Near2(s.c, Zero(d), 2)>>,
         <<"targets_moved", \A a, b \in 1..d : t.M[a][b] = (IF a = b THEN 100 ELSE 0)>>,
         <<"targets_not_centred", Near2(t.c, IF e.kind = "linear" \/ e.raw THEN Zero(d) ELSE [b \in 1..d |-> -Tdiv(100 * S1(t.X, b), Len(t.X))], 1)>>,
         <<"map_turns_or_flips", (e.kind = "coral" /\ ~Iso(s.X, e.raw) /\ ~Iso(t.X, e.raw)) \/ (Symmetric(s) /\ Positive(s))>>,
         <<"axes_mixed", ~Plain(s.X, e.raw) \/ ~Plain(t.X, e.raw) \/ \A a, b \in 1..d : IF a = b THEN s.M[a][a] >= 0 ELSE Abs(s.M[a][b]) <= 2>>}))
\* rows of one class move by one scale and one shift per feature; z in 1/1000
Line(x, z, a, b, c, f, t) == Abs((z[b][f] - z[a][f]) * (x[c][f] - x[a][f]) - (z[c][f] - z[a][f]) * (x[b][f] - x[a][f])) <= t
ClassFails(e) == LET n == Len(e.xs)  d == Len(e.xs[1]) IN
    F({<<"class_moves_apart", \A a, b, c \in 1..n : e.y[a] = e.y[b] /\ e.y[b] = e.y[c] => \A f \in 1..d : Line(e.xs, e.zs, a, b, c, f, 60)>>,
       <<"equal_rows_of_a_class_part", \A a, b \in 1..n : e.y[a] = e.y[b] => \A f \in 1..d : e.xs[a][f] = e.xs[b][f] => Abs(e.zs[a][f] - e.zs[b][f]) <= 2>>,
       <<"new_row_leaves_its_class", \A k \in DOMAIN e.q : \E i \in (IF e.qy # <<>> THEN {j \in 1..n : e.y[j] = e.qy[k]} ELSE Nearest(e.q[k], e.xs)) : \A f \in 1..d : \A a, b \in 1..n :
            (e.y[a] = e.y[i] /\ e.y[b] = e.y[i] /\ e.xs[a][f] # e.xs[b][f]) =>
              Line(<<e.xs[a], e.xs[b], e.q[k]>>, <<e.zs[a], e.zs[b], e.z[k]>>, 1, 2, 3, f, 100)>>,
       <<"targets_moved", e.zt = [i \in DOMAIN e.xt |-> [f \in 1..d |-> 1000 * e.xt[i][f]]]>>,
       <<"no_closer_to_the_target", ~e.single \/ e.xs[1] = e.xt[1] \/ \A f \in 1..d : e.xs[1][f] = e.xt[1][f] \/ Abs(e.zs[1][f] - 1000 * e.xt[1][f]) < 900 * Abs(e.xs[1][f] - e.xt[1][f])>>})
Failing(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE
    LET b == Basic(e) IN IF b # {} THEN b ELSE
    CASE e.ev = "emd" -> EmdFails(e) [] e.ev = "blend" -> BlendFails(e) [] e.ev = "affine" -> AffineFails(e) [] e.ev = "class" -> ClassFails(e) [] OTHER -> {"unknown_event"}
Tags(e) == {e.ev} \cup (IF e.ev = "affine" THEN {e.kind} ELSE {})

Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
=============================================================================
