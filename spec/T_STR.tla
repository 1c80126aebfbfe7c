------------------------------- MODULE T_STR -------------------------------
(***************************************************************************)
(* Trace specification of incrementally fitted models (M04).  The state    *)
(* holds what the model has received so far: all snapshot pairs in their   *)
(* order of arrival, the names and the sampling interval.  The events are  *)
(* the updates (accepted or rejected) and the predictions of the model.    *)
(***************************************************************************)
EXTENDS T_DMD
VARIABLE s
vars == <<l, s>>
S0 == [kind |-> "none", pairs |-> <<>>, fin |-> <<>>, dt |-> 0, dig |-> "", maxrank |-> 0, rho |-> "1", warm |-> TRUE, diag |-> FALSE]
XY(F) == LET P == Pairs(F) IN [i \in DOMAIN P |-> <<P[i][1][3], P[i][2][3]>>]
Fresh(t) == t.pairs = <<>>
UpdOk(t, e) ==
    /\ e.X.typ = "tsc" /\ FinF(e.X) /\ Regular(e.X)
    /\ (~Fresh(t) => e.X.cols = t.fin /\ TickStep(e.X) = t.dt)
After(t, e) == [t EXCEPT !.pairs = @ \o XY(e.X), !.fin = e.X.cols, !.dt = TickStep(e.X)]
\* exponentially weighted regression: the latest pair has weight one
Weighted(t) == LET n == Len(t.pairs) IN [i \in 1..n |-> <<t.pairs[i][1], t.pairs[i][2], NPow(t.rho, n - i)>>]
NonZero(v) == \E i \in DOMAIN v : ~NEq(v[i], 0)
Ready(t) == IF t.kind = "stream" THEN \E i \in DOMAIN t.pairs : NonZero(t.pairs[i][1]) ELSE ~t.warm \/ Len(t.pairs) >= 2 * Len(t.fin)
\* orthonormal basis of the span of the first (at most r) linearly independent vectors
Norm2(v) == NSqrt(NDot(v, v))
Residual(v, Q) == LET RECURSIVE R(_, _) R(w, q) == IF q = <<>> THEN w ELSE R(VSub(w, VScale(NDot(w, Head(q)), Head(q))), Tail(q)) IN R(R(v, Q), Q)
RECURSIVE Basis(_, _, _)
Basis(vs, r, Q) ==
    IF vs = <<>> \/ Len(Q) = r THEN Q
    ELSE LET v == Head(vs) w == Residual(v, Q) IN
         Basis(Tail(vs), r, IF NLe(Norm2(v), 0) \/ NLe(NDiv(Norm2(w), Norm2(v)), "1e-8") THEN Q ELSE Append(Q, VScale(NDiv(1, Norm2(w)), w)))
StreamClauses(t, e) ==
    LET X == MT([i \in DOMAIN t.pairs |-> t.pairs[i][1]]) Y == MT([i \in DOMAIN t.pairs |-> t.pairs[i][2]])
        r == IF t.maxrank = 0 THEN Len(t.fin) ELSE t.maxrank
        Qx == MT(Basis([i \in DOMAIN t.pairs |-> t.pairs[i][1]], r, <<>>)) Qy == MT(Basis([i \in DOMAIN t.pairs |-> t.pairs[i][2]], r, <<>>))
        Xt == MMul(MT(Qx), X) Yt == MMul(MT(Qy), Y)
        K == MT(MSolve(MMul(Xt, MT(Xt)), MT(MMul(MMul(MMul(MT(Qx), Qy), Yt), MT(Xt)))))
        Op == MMul(MMul(Qx, K), MT(Qx)) P == MMul(Qx, MT(Qx)) V == e.m.V
        mx == NMax2(MMaxAbs(V[1]), MMaxAbs(V[2]))
    IN E1(Len(V[1][1]) = Len(Qx[1]) /\ Len(e.m.ev[1]) = Len(Qx[1]), "number_of_modes")
       \cup E1(ColsNonZero(V), "zero_mode")
       \cup E1(CClose(CMul(CReal(P), V), V, 0, NMul("1e-6", mx)), "modes_in_range")
       \cup E1(EigEq(Op, V, e.m.ev, "1e-5"), "mode_equation")
OnlineClauses(t, e) ==
    LET A == LS(Weighted(t)) IN
    E1(e.count = Len(t.pairs), "number_of_samples") \cup E1(e.ready = Ready(t), "ready")
    \cup (IF ~e.wc THEN {} ELSE E1(MClose(e.m.A, A, 0, NMul("1e-4", NMax2("1e-3", MMaxAbs(A)))), "batch_solution")
                                \cup (IF Len(t.pairs) >= 20 * Len(t.fin) \/ e.batched THEN E1(MClose(e.m.A, A, 0, NMul("2e-5", NMax2("1e-3", MMaxAbs(A)))), "batch_solution_late") ELSE {}))
    \cup (IF ~Ready(t) THEN {}
          ELSE IF e.m.V = <<>> THEN {"no_spectrum"}
          ELSE E1(EigEq(e.m.A, e.m.V, e.m.ev, "1e-6"), "eigen_equation") \cup E1(ColsNonZero(e.m.V), "zero_mode")
               \cup E1(t.diag => /\ e.m.W # <<>>
                                 /\ (e.wc => LET L == Recomposed(e) IN MClose(L, e.m.A, 0, NMul("1e-5", NMax2("1e-9", MMaxAbs(e.m.A))))), "diagonalization"))
UpdClauses(t, e) ==
    IF ~UpdOk(t, e) THEN E1(Rejected(e), "inadmissible_data_accepted") \cup E1(Fresh(t) \/ e.dig = t.dig, "rejected_update_changes_model")
    ELSE IF e.err # "" THEN {"update_failed"}
    ELSE LET u == After(t, e) IN
         E1(e.pre = e.after, "arguments_changed") \cup E1(e.dt = u.dt, "sampling_interval") \cup E1(e.fin = u.fin, "names")
         \cup (IF t.kind = "online" THEN OnlineClauses(u, e) ELSE IF e.wc /\ Ready(u) /\ (\E i \in DOMAIN u.pairs : NonZero(u.pairs[i][2])) THEN StreamClauses(u, e) ELSE {})
ClausesS(t, e) ==
    CASE e.op = "new" -> {}
      [] e.op = "upd" -> UpdClauses(t, e)
      [] e.op = "unready" -> E1(Ready(t) \/ Rejected(e), "prediction_before_ready")
      [] OTHER -> Clauses(e)
NextS(t, e) ==
    CASE e.op = "new" -> [S0 EXCEPT !.kind = e.kind, !.maxrank = e.maxrank, !.rho = e.rho, !.warm = e.warm, !.diag = e.diag]
      [] e.op = "upd" -> IF e.err = "" THEN [After(t, e) EXCEPT !.dig = e.dig] ELSE [t EXCEPT !.dig = e.dig]
      [] OTHER -> t
InitS == l = 1 /\ s = S0
StepS == /\ l <= Len(Trace)
         /\ \A c \in ClausesS(s, Trace[l]) : PrintT(<<"VIO", l, c>>)
         /\ s' = NextS(s, Trace[l])
         /\ l' = l + 1
SpecS == InitS /\ [][StepS]_vars
=============================================================================
