------------------------------- MODULE MC_QP --------------------------------
(* Frank-Wolfe with the step 2/(k+1) on every small problem: x_k = s/T with    *)
(* T = k(k+1)/2 and s = 1 v_1 + ... + k v_k.  The iterate stays feasible and is *)
(* at most 2C/(k+2) above the best feasible point, whatever corner is chosen    *)
(* among equals.  Reckless: corners that forget the upper bounds.               *)
EXTENDS QP
CONSTANTS K, Coefs, Slopes, Reckless
S3 == -1..1
S5 == -2..2
VARIABLES Q, c, lim, up, s, k
vars == <<Q, c, lim, up, s, k>>
W == <<1, 1>>
L0 == <<0, 0>>
T(n) == (n * (n + 1)) \div 2
Cs == Corners(W, lim[1], lim[2], L0, IF Reckless THEN <<>> ELSE up)
Init == /\ \E a, b \in Coefs : \E m \in {-1, 0, 1} : /\ a * b >= m * m /\ Q = <<<<a, m>>, <<m, b>>>>
        /\ \E u, v \in Slopes : c = <<u, v>>
        /\ up \in {<<>>, <<1, 2>>, <<2, 2>>}
        /\ lim \in {<<0, 2>>, <<1, 1>>, <<2, 3>>, <<2, 2>>}
        /\ s = <<0, 0>> /\ k = 0
\* slope at the current point, times T(k)
Slope == IF k = 0 THEN Grad(Q, c, <<1, 0>>, 1) ELSE Grad(Q, c, s, T(k))
Step == /\ k < K
        /\ \E v \in Best(Cs, Slope) : s' = [i \in {1, 2} |-> s[i] + (k + 1) * v[i]]
        /\ k' = k + 1 /\ UNCHANGED <<Q, c, lim, up>>
Spec == Init /\ [][Step]_vars
P == [A |-> <<W, <<-1, -1>>>>, b |-> <<lim[2], -lim[1]>>, E |-> <<>>, e |-> <<>>, lb |-> L0, ub |-> up]
Feasible == k > 0 => Inside(P, s, T(k), 0)
Close == k > 0 => \A z \in Corners(W, lim[1], lim[2], L0, up) :
    (F2(Q, c, s, T(k)) - T(k) * T(k) * F2(Q, c, z, 1)) * (k + 2) <= 4 * Curv(Q, W, lim[2], L0, up) * T(k) * T(k)
Solvable == ~Hopeless(P) => Corners(W, lim[1], lim[2], L0, up) # {}
=============================================================================
