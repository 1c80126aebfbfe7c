-------------------------------- MODULE Mpc --------------------------------
(***************************************************************************)
(* Predictive control of a linear controlled model (P01).                  *)
(*   z_{k+1} = A z_k + B u_k,  y_k = the selected coordinates of z_k       *)
(*   J(u) = sum_{k=1..N} (y_k - r_k)' Q_k (y_k - r_k) + sum u_k' R u_k     *)
(* with Q_N the terminal cost; bounds lo <= u_k <= hi and lo <= y_k <= hi. *)
(* m : [A, B, q (selected coordinates), hz, cr, ct, cu, sb, ib]            *)
(* A control sequence is a sequence of hz input vectors.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Num
RECURSIVE Roll(_, _, _)
Roll(m, z, us) == IF us = <<>> THEN <<z>> ELSE <<z>> \o Roll(m, Deep(VAdd(MVec(m.A, z), MVec(m.B, Head(us)))), Tail(us))
Pick(m, z) == [j \in DOMAIN m.q |-> z[m.q[j]]]
Outs(m, z0, us) == LET Z == Roll(m, z0, us) IN Deep([k \in 1..m.hz |-> Pick(m, Z[k + 1])])
CostOf(m, k) == IF k = m.hz THEN m.ct ELSE m.cr
WDot(w, v) == NSum([i \in DOMAIN v |-> NMul(w[i], NMul(v[i], v[i]))])
J(m, z0, us, r) == LET Y == Outs(m, z0, us) IN
    NAdd(NSum([k \in 1..m.hz |-> WDot(CostOf(m, k), VSub(Y[k], r[k]))]), NSum([k \in 1..m.hz |-> WDot(m.cu, us[k])]))
\* gradient by the adjoint recursion: lam_k = 2 C' Q_k (y_k - r_k) + A' lam_{k+1}
Src(m, k, y, r) == LET d == VSub(y, r) w == CostOf(m, k) IN
    Deep([i \in DOMAIN m.A |-> NSum([j \in DOMAIN m.q |-> IF m.q[j] = i THEN NMul(2, NMul(w[j], d[j])) ELSE "0"])])
RECURSIVE Adj(_, _, _, _)
Adj(m, Y, r, k) == IF k > m.hz THEN <<>>
    ELSE LET rest == Adj(m, Y, r, k + 1) g == Src(m, k, Y[k], r[k]) IN
         <<IF rest = <<>> THEN g ELSE VAdd(g, MVec(MT(m.A), rest[1]))>> \o rest
Grad(m, z0, us, r) == LET Y == Outs(m, z0, us) L == Deep(Adj(m, Y, r, 1)) IN
    Deep([k \in 1..m.hz |-> VAdd(VScale(2, [j \in DOMAIN m.cu |-> NMul(m.cu[j], us[k][j])]), MVec(MT(m.B), L[k]))])
\* sensitivity of output j at step k with respect to the inputs (flat vector over steps and inputs)
RECURSIVE PowB(_, _)
PowB(m, i) == IF i = 0 THEN <<m.B>> ELSE LET p == PowB(m, i - 1) IN Append(p, MMul(m.A, p[i]))
Sens(m, P, k, j) == Deep([x \in 1..(m.hz * Len(m.cu)) |-> LET i == ((x - 1) \div Len(m.cu)) + 1 c == ((x - 1) % Len(m.cu)) + 1 IN
    IF i > k THEN "0" ELSE P[k - i + 1][m.q[j]][c]])
Flat(G) == Deep([x \in 1..(Len(G) * Len(G[1])) |-> G[((x - 1) \div Len(G[1])) + 1][((x - 1) % Len(G[1])) + 1]])
UnitV(n, i) == [x \in 1..n |-> IF x = i THEN "1" ELSE "0"]
\* feasibility
InB(b, v, tol) == b = <<>> \/ \A i \in DOMAIN b : NLe(NSub(b[i][1], tol), v[i]) /\ NLe(v[i], NAdd(b[i][2], tol))
YTol(m, Y, tol) == IF Y = <<>> THEN tol ELSE NMul(tol, NMax2(1, MMaxAbs(Y)))
Feasible(m, z0, us, tol) == LET Y == Outs(m, z0, us) IN
    (\A k \in 1..m.hz : InB(m.ib, us[k], NMul(tol, NMax2(1, MMaxAbs(us))))) /\ (\A k \in 1..m.hz : InB(m.sb, Y[k], YTol(m, Y, tol)))
\* active constraints as rows a with  a . du <= 0
ActU(m, us, tol) == IF m.ib = <<>> THEN <<>> ELSE
    LET n == m.hz * Len(m.cu) u == Flat(us)
        S == {x \in 1..(2 * n) : LET i == ((x - 1) % n) + 1 b == m.ib[((i - 1) % Len(m.cu)) + 1] IN
                IF x <= n THEN NLe(NSub(b[2], tol), u[i]) ELSE NLe(u[i], NAdd(b[1], tol))} IN
    LET RECURSIVE row(_)
        row(x) == IF x > 2 * n THEN <<>> ELSE (IF x \in S THEN <<IF x <= n THEN UnitV(n, x) ELSE VScale(-1, UnitV(n, x - n))>> ELSE <<>>) \o row(x + 1) IN row(1)
ActY(m, Y, P, tol) == IF m.sb = <<>> THEN <<>> ELSE
    LET RECURSIVE row(_, _)
        row(k, j) == IF k > m.hz THEN <<>> ELSE IF j > Len(m.q) THEN row(k + 1, 1)
                     ELSE (IF NLe(NSub(m.sb[j][2], tol), Y[k][j]) THEN <<Sens(m, P, k, j)>> ELSE <<>>)
                          \o (IF NLe(Y[k][j], NAdd(m.sb[j][1], tol)) THEN <<VScale(-1, Sens(m, P, k, j))>> ELSE <<>>) \o row(k, j + 1) IN row(1, 1)
\* size of the terms whose sum is the gradient
GScale(m, z0, us, r) == LET Y == Outs(m, z0, us) IN
    NMul(NMul(2, NMax2(1, MMaxAbs(m.B))), NAdd(NMul(NMax2(MMaxAbs(<<m.cu>>), 0), MMaxAbs(us)),
         NMul(NMul(m.hz, NMax2(NMaxAbs(m.cr), NMaxAbs(m.ct))), NAdd(MMaxAbs(Y), MMaxAbs(r)))))
\* first order optimality: "yes", "no", or "unknown" if the active constraints are dependent
Optimal(m, z0, us, r) ==
    LET g == Flat(Grad(m, z0, us, r)) Y == Outs(m, z0, us) P == Deep(PowB(m, m.hz))
        gt == NMul("2e-6", GScale(m, z0, us, r)) n == Len(g)
        C == Deep(ActU(m, us, NMul("1e-6", NMax2("1e-3", MMaxAbs(us)))) \o ActY(m, Y, P, NMul("1e-6", NMax2("1e-3", MMaxAbs(Y))))) IN
    IF C = <<>> THEN (IF \A i \in 1..n : NLe(NAbs(g[i]), gt) THEN "yes" ELSE "no")
    ELSE IF Len(C) > n THEN "unknown"
    ELSE LET G == MMul(C, MT(C)) W == MSolve(G, [i \in DOMAIN C |-> <<NNeg(NDot(C[i], g))>>])
             sol == Deep([i \in DOMAIN C |-> W[i][1]]) IN
         IF (\E i \in DOMAIN sol : ~NIsFin(sol[i])) \/ ~MClose(MMul(G, W), [i \in DOMAIN C |-> <<NNeg(NDot(C[i], g))>>], "1e-12", NMul("1e-12", NMax2("1e-9", NMaxAbs(g)))) THEN "unknown"
         ELSE LET res == VAdd(g, MVec(MT(C), sol)) ct == NMul(gt, 10) IN
              IF NLe(NMul("1e6", NMax2(1, NMaxAbs(g))), NMaxAbs(sol)) THEN "unknown"
              ELSE IF (\A i \in 1..n : NLe(NAbs(res[i]), gt)) /\ (\A i \in DOMAIN sol : NLe(NNeg(ct), sol[i])) THEN "yes" ELSE "no"
\* ------------------------------------------- linear quadratic regulator
Diag(v) == Deep([i \in DOMAIN v |-> [j \in DOMAIN v |-> IF i = j THEN v[i] ELSE "0"]])
MAddM(A, B) == Deep([i \in DOMAIN A |-> VAdd(A[i], B[i])])
MSubM(A, B) == Deep([i \in DOMAIN A |-> VSub(A[i], B[i])])
Gain(A, B, R, P) == LET BtP == MMul(MT(B), P) IN MSolve(MAddM(R, MMul(BtP, B)), MMul(BtP, A))
RicStep(A, B, Q, R, P) == MAddM(Q, MMul(MMul(MT(A), P), MSubM(A, MMul(B, Gain(A, B, R, P)))))
RECURSIVE Riccati(_, _, _, _, _, _)
Riccati(A, B, Q, R, P, n) ==
    LET N == Deep(RicStep(A, B, Q, R, P)) IN
    IF MClose(N, P, "1e-14", "1e-20") THEN [ok |-> TRUE, F |-> Gain(A, B, R, N)]
    ELSE IF n = 0 THEN [ok |-> FALSE, F |-> <<>>] ELSE Riccati(A, B, Q, R, N, n - 1)
=============================================================================
