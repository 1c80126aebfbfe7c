-------------------------------- MODULE Lin --------------------------------
(***************************************************************************)
(* Linear dynamical systems: the state at time t of                        *)
(*    x' = A x (+ B u),  x(n+1) = A x(n) (+ B u(n)),  x' = (A + sum u_j N_j) x *)
(* as a function of the initial state (used by M01, M02, M03, M05, M06, P01). *)
(* A system with a known spectrum is T diag(blocks) T^-1 with blocks       *)
(*    <<"r", lambda>>             real eigenvalue                          *)
(*    <<"c", rho, theta>>         pair rho exp(+-i theta) (flow map)       *)
(*    <<"c", a, b>>               pair a +- i b           (generator)      *)
(* Complex matrices are <<real part, imaginary part>>.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, Num
\* s-th (real) power of the block diagonal matrix applied to y;  exp(block t) y
RECURSIVE BPow(_, _, _)
BPow(bs, y, s) ==
    IF bs = <<>> THEN <<>>
    ELSE LET b == Head(bs) IN
         IF b[1] = "r" THEN <<NMul(IF NEq(s, 0) THEN 1 ELSE NPowR(b[2], s), y[1])>> \o BPow(Tail(bs), SubSeq(y, 2, Len(y)), s)
         ELSE LET r == IF NEq(s, 0) THEN 1 ELSE NPowR(b[2], s) c == NMul(r, NCos(NMul(s, b[3]))) d == NMul(r, NSin(NMul(s, b[3]))) IN
              <<NSub(NMul(c, y[1]), NMul(d, y[2])), NAdd(NMul(d, y[1]), NMul(c, y[2]))>> \o BPow(Tail(bs), SubSeq(y, 3, Len(y)), s)
RECURSIVE BExp(_, _, _)
BExp(bs, y, t) ==
    IF bs = <<>> THEN <<>>
    ELSE LET b == Head(bs) IN
         IF b[1] = "r" THEN <<NMul(NExp(NMul(b[2], t)), y[1])>> \o BExp(Tail(bs), SubSeq(y, 2, Len(y)), t)
         ELSE LET r == NExp(NMul(b[2], t)) c == NMul(r, NCos(NMul(t, b[3]))) d == NMul(r, NSin(NMul(t, b[3]))) IN
              <<NSub(NMul(c, y[1]), NMul(d, y[2])), NAdd(NMul(d, y[1]), NMul(c, y[2]))>> \o BExp(Tail(bs), SubSeq(y, 3, Len(y)), t)
Coord(T, x) == LET c == MSolve(T, [i \in DOMAIN x |-> <<x[i]>>]) IN [i \in DOMAIN c |-> c[i][1]]
FlowAt(T, bs, x, s) == MVec(T, BPow(bs, Coord(T, x), s))
GenAt(T, bs, x, t) == MVec(T, BExp(bs, Coord(T, x), t))
\* matrix exponential: Taylor series of A / 2^k, squared k times
RECURSIVE Taylor(_, _, _, _)
Taylor(A, term, i, n) == IF i > n THEN term ELSE LET t == MScale(NDiv(1, i), MMul(term, A)) IN MAdd(term, Taylor(A, t, i + 1, n))
RECURSIVE Square(_, _)
Square(A, k) == IF k = 0 THEN A ELSE Square(MMul(A, A), k - 1)
RECURSIVE Halvings(_)
Halvings(m) == IF NLe(m, "0.25") THEN 0 ELSE 1 + Halvings(NDiv(m, 2))
MExp(A) ==
    LET k == Halvings(NMul(Len(A), MMaxAbs(A))) S == MScale(NDiv(1, NPow(2, k)), A) IN Square(Taylor(S, MEye(Len(A)), 1, 14), k)
\* trajectories (sequence of states, first one the initial state)
RECURSIVE StepsFrom(_, _, _, _)
StepsFrom(A, B, x, us) ==
    IF us = <<>> THEN <<x>> ELSE <<x>> \o StepsFrom(A, B, VAdd(MVec(A, x), MVec(B, Head(us))), Tail(us))
\* zero order hold of u over each interval of x' = A x + B u
ZOH(A, B, d) ==
    LET n == Len(A) m == Len(B[1])
        M == [i \in 1..(n + m) |-> [j \in 1..(n + m) |-> IF i <= n THEN NMul(d, IF j <= n THEN A[i][j] ELSE B[i][j - n]) ELSE "0"]]
        E == MExp(M)
    IN <<[i \in 1..n |-> SubSeq(E[i], 1, n)], [i \in 1..n |-> SubSeq(E[i], n + 1, n + m)]>>
RECURSIVE ZOHFrom(_, _, _, _, _)
ZOHFrom(A, B, x, us, ts) ==
    IF us = <<>> THEN <<x>>
    ELSE LET Z == ZOH(A, B, NSub(ts[2], ts[1])) IN <<x>> \o ZOHFrom(A, B, VAdd(MVec(Z[1], x), MVec(Z[2], Head(us))), Tail(us), Tail(ts))
\* control affine system; N is a sequence of matrices, one per control feature.  The control is the cubic through its samples
\* (the harness only uses controls that are cubic polynomials of time), integrated with small Runge-Kutta steps.
LagrangeAt(ts, us, t) ==    \* value at t of the cubic through the first four samples
    LET w(i) == LET o == {1, 2, 3, 4} \ {i} IN
            LET RECURSIVE P(_)
                P(S) == IF S = {} THEN 1 ELSE LET j == CHOOSE j \in S : TRUE IN NMul(NDiv(NSub(t, ts[j]), NSub(ts[i], ts[j])), P(S \ {j}))
            IN P(o)
    IN VAdd(VAdd(VScale(w(1), us[1]), VScale(w(2), us[2])), VAdd(VScale(w(3), us[3]), VScale(w(4), us[4])))
RECURSIVE SumMats(_, _, _)
SumMats(A, N, u) == IF N = <<>> THEN A ELSE SumMats(MAdd(A, MScale(Head(u), Head(N))), Tail(N), Tail(u))
RECURSIVE RK(_, _, _, _, _, _, _, _)
RK(A, N, ts, us, x, t, h, k) ==
    IF k = 0 THEN x
    ELSE LET F(s, y) == MVec(SumMats(A, N, LagrangeAt(ts, us, s)), y)
             k1 == F(t, x) k2 == F(NAdd(t, NDiv(h, 2)), VAdd(x, VScale(NDiv(h, 2), k1)))
             k3 == F(NAdd(t, NDiv(h, 2)), VAdd(x, VScale(NDiv(h, 2), k2))) k4 == F(NAdd(t, h), VAdd(x, VScale(h, k3)))
             y == VAdd(x, VScale(NDiv(h, 6), VAdd(VAdd(k1, VScale(2, k2)), VAdd(VScale(2, k3), k4))))
         IN RK(A, N, ts, us, y, NAdd(t, h), h, k - 1)
RECURSIVE AffineFrom(_, _, _, _, _, _)
AffineFrom(A, N, ts, us, x, i) ==
    IF i = Len(ts) THEN <<x>>
    ELSE <<x>> \o AffineFrom(A, N, ts, us, RK(A, N, ts, us, x, ts[i], NDiv(NSub(ts[i + 1], ts[i]), 4), 4), i + 1)
\* complex matrices
CMul(X, Y) == <<MSub(MMul(X[1], Y[1]), MMul(X[2], Y[2])), MAdd(MMul(X[1], Y[2]), MMul(X[2], Y[1]))>>
CReal(A) == <<A, [i \in DOMAIN A |-> Zeros(Len(A[i]))]>>
\* columns scaled by the complex numbers ev = <<re, im>> (sequences)
CScaleCols(X, ev) ==
    <<[i \in DOMAIN X[1] |-> [j \in DOMAIN X[1][i] |-> NSub(NMul(X[1][i][j], ev[1][j]), NMul(X[2][i][j], ev[2][j]))]],
      [i \in DOMAIN X[1] |-> [j \in DOMAIN X[1][i] |-> NAdd(NMul(X[1][i][j], ev[2][j]), NMul(X[2][i][j], ev[1][j]))]]>>
CAbs2(ev, j) == NAdd(NMul(ev[1][j], ev[1][j]), NMul(ev[2][j], ev[2][j]))
CClose(X, Y, rtol, atol) == MClose(X[1], Y[1], rtol, atol) /\ MClose(X[2], Y[2], rtol, atol)
\* powers and exponentials of complex numbers
CPowEv(ev, s) ==
    LET r(j) == NPowR(NSqrt(CAbs2(ev, j)), s) th(j) == NMul(s, NAtan2(ev[2][j], ev[1][j])) IN
    IF NEq(s, 0) THEN <<[j \in DOMAIN ev[1] |-> "1"], [j \in DOMAIN ev[1] |-> "0"]>>
    ELSE <<[j \in DOMAIN ev[1] |-> NMul(r(j), NCos(th(j)))], [j \in DOMAIN ev[1] |-> NMul(r(j), NSin(th(j)))]>>
CExpEv(ev, t) ==
    LET r(j) == NExp(NMul(t, ev[1][j])) th(j) == NMul(t, ev[2][j]) IN
    <<[j \in DOMAIN ev[1] |-> NMul(r(j), NCos(th(j)))], [j \in DOMAIN ev[1] |-> NMul(r(j), NSin(th(j)))]>>
\* least squares coordinates c of the real vector x in the complex columns V (real embedding of the normal equations)
CH(X) == <<MT(X[1]), MScale(-1, MT(X[2]))>>
CLstsq(V, x) ==
    LET G == CMul(CH(V), V) h == CMul(CH(V), CReal([i \in DOMAIN x |-> <<x[i]>>])) r == Len(G[1])
        M == [i \in 1..(2 * r) |-> [j \in 1..(2 * r) |->
                IF i <= r THEN (IF j <= r THEN G[1][i][j] ELSE NNeg(G[2][i][j - r])) ELSE (IF j <= r THEN G[2][i - r][j] ELSE G[1][i - r][j - r])]]
        s == MSolve(M, [i \in 1..(2 * r) |-> IF i <= r THEN h[1][i] ELSE h[2][i - r]])
    IN <<[i \in 1..r |-> s[i]], [i \in 1..r |-> s[r + i]]>>
\* real part of V diag(f) c
Compose(V, f, c) == LET M == CMul(CScaleCols(V, f), c) IN [i \in DOMAIN M[1] |-> M[1][i][1]]
SpecFlowAt(V, ev, x, s) == Compose(V, CPowEv(ev, s), CLstsq(V, x))
SpecGenAt(V, ev, x, t) == Compose(V, CExpEv(ev, t), CLstsq(V, x))
=============================================================================
