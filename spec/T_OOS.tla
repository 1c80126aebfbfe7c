------------------------------- MODULE T_OOS -------------------------------
(***************************************************************************)
(* Trace specification of the out-of-sample interpolators (K04).           *)
(*  ghi : geometric harmonics - the kernel expansion with the projection   *)
(*        of the targets on the leading eigenvectors (their equations are  *)
(*        checked at fit as for diffusion maps, module T_DMP).             *)
(*  lap : Laplacian pyramid - a state machine over kernel scales; every    *)
(*        target refines on its own until its stopping rule holds, and     *)
(*        contributes to no later level.                                   *)
(***************************************************************************)
EXTENDS T_DMP
ONone == [kind |-> "none"]
\* -------------------------------------------------------- geometric harmonics
GhiCoef(m) == LET p == MMul(MT(m.vecs), m.y) IN MMul(m.vecs, [j \in DOMAIN p |-> VScale(NDiv(1, m.vals[j]), p[j])])
GhiMat(m, Q) == DKY(m.d, m.K, KYX(m.k, Q, m.X))
GhiSmall(m) == \E j \in DOMAIN m.vals : NLe(NAbs(m.vals[j]), "1e-5")
GhiMay(m, Q) == \/ m.may \/ GhiSmall(m) \/ KernMay(m.k, Q, m.X, RefKnn(m.k, m.X))
                \/ m.d.stoch /\ (Tiny(RowSums(KYX(m.k, Q, m.X))) \/ Tiny(RowSums(m.K)))
\* ---------------------------------------------------------- Laplacian pyramid
GK(eps) == [kern |-> "gauss", eps |-> eps, cut |-> "inf", knn |-> 0, kmin |-> 0, kn |-> 0, delta |-> "0", zeta |-> "0", acc |-> 2, h |-> "1"]
LD(a) == [stoch |-> TRUE, alpha |-> a, sym |-> FALSE]
NoDiag(A) == [i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> IF i = j THEN "0" ELSE A[i][j]]]
VAddN(a, b) == [i \in DOMAIN a |-> NAdd(a[i], b[i])]
VSubN(a, b) == [i \in DOMAIN a |-> NSub(a[i], b[i])]
\* c : [auto, tol ("none" | number), mu, alpha];  st : target -> [t, F, last] of the targets still refining
\* result: [lv |-> levels (eps, K, t : target -> values), may |-> a stopping rule was too close to call]
RECURSIVE LapRun(_, _, _, _, _, _)
LapRun(c, X, y, n, eps, st) ==
    IF DOMAIN st = {} THEN [lv |-> <<>>, may |-> FALSE]
    ELSE IF n > 45 THEN [lv |-> <<>>, may |-> TRUE]
    ELSE LET K == Deep(KXX(GK(eps), X))
             A0 == Deep(DK(LD(c.alpha), K)) A == Deep(IF c.auto THEN NoDiag(A0) ELSE A0)
             nw == Deep([j \in DOMAIN st |-> LET F == Deep(VAddN(st[j].F, MVec(A, st[j].t))) r == Deep(VSubN(y[j], F)) IN [F |-> F, t |-> r, last |-> Norm(r)]])
             loo == {j \in DOMAIN st : c.auto /\ n > 0 /\ NLt(st[j].last, nw[j].last)}
             keep == DOMAIN st \ loo
             done == {j \in keep : (c.tol # "none" /\ NLe(nw[j].last, c.tol)) \/ NLt(nw[j].last, "1e-15")}
             may == \E j \in DOMAIN st : \/ c.auto /\ n > 0 /\ NClose(st[j].last, nw[j].last, "1e-8", "1e-13")
                                         \/ c.tol # "none" /\ NClose(nw[j].last, c.tol, "1e-8", "1e-13")
                                         \/ NLt(nw[j].last, "1e-13") /\ ~NEq(nw[j].last, 0)
                                         \/ ~NIsFin(nw[j].last)
             rest == Deep(LapRun(c, X, y, n + 1, NDiv(eps, c.mu), [j \in keep \ done |-> nw[j]])) IN
         IF may THEN [lv |-> <<>>, may |-> TRUE]
         ELSE [lv |-> (IF keep = {} THEN <<>> ELSE <<[eps |-> eps, K |-> K, t |-> [j \in keep |-> st[j].t]]>>) \o rest.lv, may |-> rest.may]
LapFit(e) == LET y == MT(e.y) n == Len(e.X) IN
    LapRun(e.ps, e.X, y, 0, e.ps.eps, [j \in DOMAIN y |-> [t |-> y[j], F |-> [i \in 1..n |-> "0"], last |-> "0"]])
LapK(m, L, Q) == KYX(GK(L.eps), Q, m.X)
LapMay(m, Q) == m.may \/ \E q \in DOMAIN m.lv : LET r == RowSums(LapK(m, m.lv[q], Q)) IN
    \E i \in DOMAIN r : (NLe(r[i], "1e-280") /\ ~(NEq(m.c.alpha, 0) /\ NEq(r[i], 0))) \/ ~NIsFin(r[i])
RECURSIVE LapAdd(_, _, _, _)
LapAdd(m, Q, q, acc) ==
    IF q > Len(m.lv) THEN acc
    ELSE LET L == m.lv[q] A == Deep(DKY(LD(m.c.alpha), L.K, LapK(m, L, Q))) IN
         LapAdd(m, Q, q + 1, Deep([j \in DOMAIN acc |-> IF j \in DOMAIN L.t THEN VAddN(acc[j], MVec(A, L.t[j])) ELSE acc[j]]))
LapPred(m, Q) == MT(LapAdd(m, Q, 1, [j \in 1..m.nt |-> [i \in DOMAIN Q |-> "0"]]))
\* ------------------------------------------------------------------ both
OMay(Q) == IF s.kind = "ghi" THEN GhiMay(s, Q) ELSE LapMay(s, Q)
OPred(Q) == IF s.kind = "ghi" THEN MMul(GhiMat(s, Q), GhiCoef(s)) ELSE LapPred(s, Q)
OTol == IF s.kind = "ghi" THEN NMul("1e-9", NMul(NMax2(1, MMaxAbs(s.K)), NMul(Len(s.X), NMax2(1, MMaxAbs(GhiCoef(s))))))
        ELSE NMul("1e-8", NMax2("1e-3", s.ymax))
\* admissible settings
GhiAdm(e) == e.n >= 1 /\ e.n <= Len(e.X) - 1
LapAdm(e) == /\ e.ps.auto \/ e.ps.tol # "none"
             /\ NLt(1, e.ps.mu)
             /\ e.ps.tol = "none" \/ NLe(0, e.ps.tol)
DupDiff(e) == \E a, b \in DOMAIN e.X : a < b /\ VClose(e.X[a], e.X[b], "0", "1e-9")
PredOk(e) ==
    IF e.bad THEN E1(Rejected(e), "inadmissible_input_accepted")
    ELSE IF OMay(e.X) THEN {}
    ELSE IF e.err # "" THEN {"prediction_failed"}
    ELSE LET P == OPred(e.X) IN
         IF Len(e.out) # Len(P) \/ (\E i \in DOMAIN P : Len(e.out[i]) # Len(P[i])) THEN {"prediction_shape"}
         ELSE E1(MClose(e.out, P, "1e-8", OTol), "prediction_values")
              \cup E1(e.ndim = (IF s.nt = 1 /\ (s.y1 \/ e.ndim = 1) THEN 1 ELSE 2), "prediction_shape")
ScoreOk(e) ==
    IF OMay(e.X) THEN {} ELSE IF e.err # "" THEN {"score_failed"}
    ELSE LET P == OPred(e.X) W == NSum(e.w)
             mse == [j \in 1..s.nt |-> NDiv(NSum([i \in DOMAIN P |-> NMul(e.w[i], NMul(NSub(P[i][j], e.y[i][j]), NSub(P[i][j], e.y[i][j])))]), W)]
             raw == [j \in 1..s.nt |-> NNeg(NSqrt(mse[j]))]
             tol == NMul(10, OTol) IN
         IF \E j \in DOMAIN mse : NLe(mse[j], NMul("1e-8", NMax2(1, tol))) THEN {}
         ELSE IF e.mo = "raw_values" THEN E1(VClose(e.val, raw, "1e-6", tol), "score")
         ELSE E1(Len(e.val) = 1 /\ (NClose(e.val[1], NDiv(NSum(raw), s.nt), "1e-6", tol) \/ NClose(e.val[1], NNeg(NSqrt(NDiv(NSum(mse), s.nt))), "1e-6", tol)), "score")
OClauses(e) ==
    CASE e.op = "ghi" -> E1(e.pre = e.after, "arguments_or_parameters_changed") \cup
            (IF ~GhiAdm(e) THEN E1(Rejected(e), "too_many_eigenpairs_accepted") ELSE IF FitMay(e) THEN {} ELSE FitDmap(e))
      [] e.op = "lap" -> E1(e.pre = e.after, "arguments_or_parameters_changed") \cup
            (IF ~LapAdm(e) THEN E1(Rejected(e), "inadmissible_settings_accepted")
             ELSE LET f == Deep(LapFit(e)) IN
                  IF f.may \/ DupDiff(e) THEN {} ELSE IF e.err # "" THEN {"fit_failed"} ELSE E1(e.level = Len(f.lv) - 1, "number_of_levels"))
      [] e.op = "pred" -> E1(e.pre = e.after, "arguments_or_parameters_changed") \cup
            (IF s.kind = "none" THEN E1(e.err = "NotFittedError" \/ (e.bad /\ Rejected(e)), "not_fitted_error") ELSE PredOk(e))
      [] e.op = "score" -> IF s.kind = "none" THEN E1(e.err = "NotFittedError", "not_fitted_error") ELSE ScoreOk(e)
      [] e.op = "crash" -> {"crash:" \o e.err}
      [] OTHER -> {}
YMax(y) == MMaxAbs(y)
OStep(e) ==
    CASE e.op = "new" -> ONone
      [] e.op = "ghi" -> IF e.err # "" THEN ONone
            ELSE [kind |-> "ghi", may |-> FitMay(e), k |-> e.k, d |-> e.d, X |-> e.X, y |-> e.y, nt |-> Len(e.y[1]), y1 |-> e.y1, vals |-> e.vals, vecs |-> e.vecs, K |-> KXX(e.k, e.X)]
      [] e.op = "lap" -> IF e.err # "" THEN ONone
            ELSE LET f == Deep(LapFit(e)) IN [kind |-> "lap", may |-> f.may \/ DupDiff(e), lv |-> f.lv, c |-> e.ps, X |-> e.X, nt |-> Len(e.y[1]), y1 |-> e.y1, ymax |-> YMax(e.y)]
      [] OTHER -> s
ONext == /\ l <= Len(Trace)
         /\ \A c \in OClauses(Trace[l]) : PrintT(<<"VIO", l, c>>)
         /\ s' = OStep(Trace[l])
         /\ l' = l + 1
OInit == l = 1 /\ s = ONone
OSpec == OInit /\ [][ONext]_<<l, s>>
=============================================================================
