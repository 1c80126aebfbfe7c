------------------------------- MODULE T_DMP -------------------------------
(***************************************************************************)
(* Trace specification of the diffusion map models (K03).                  *)
(* s : the fitted model: kernel and settings, training points, the         *)
(*     eigenpairs found (their equations are checked at fit), the selected *)
(*     coordinates (set by the caller at any time, kept until changed).    *)
(***************************************************************************)
EXTENDS Dmp, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
E1(b, c) == IF b THEN {} ELSE {c}
Rejected(e) == e.err # "" /\ e.err # "timeout"
None == [kind |-> "none", n |-> 0, sel |-> FALSE, tc |-> <<>>]
NumErr == {"NumericalMathError", "ArpackNoConvergence", "ArpackError"}
\* ------------------------------------------------------------- kernel matrices
RefKnn(k, X) == IF k.kern = "cnn" THEN KnnDist(k, D2(X, X)) ELSE <<>>
KXX(k, X) == KernMat(k, X, X, TRUE, RefKnn(k, X)).v
KYX(k, Y, X) == KernMat(k, Y, X, FALSE, RefKnn(k, X)).v
Tiny(v) == \E i \in DOMAIN v : NLe(NAbs(v[i]), "1e-200") \/ ~NIsFin(v[i])
\* row stochastic (or unnormalized) kernel matrix of the training points
DK(d, K) == IF ~d.stoch THEN K ELSE RowStoch(Renorm(d, K, Dens(d, K)))
DKY(d, K, KY) == IF ~d.stoch THEN KY ELSE RowStoch(Renorm(d, KY, Dens(d, K)))
SymOf(d, K) == IF ~d.stoch THEN K ELSE ConjMat(Renorm(d, K, Dens(d, K)))
\* the landmark matrix of query points, and its normalization diagonal
LdOf(m) == ColSums(m.K)
SnOf(m) == ColSums(RoseDens(m.d.alpha, m.K, LdOf(m)))
NdOf(m, KY) == LET q == MVec(RoseDens(m.d.alpha, KY, LdOf(m)), SnOf(m)) IN [i \in DOMAIN q |-> IF NEq(q[i], 0) THEN "0" ELSE NDiv(1, NSqrt(q[i]))]
RM(m, KY) == RoseMat(m.d.alpha, KY, LdOf(m), SnOf(m))
\* ------------------------------------------------------------------------ fit
FitMay(e) == \/ KernMay(e.k, e.X, IF e.kind = "rose" THEN e.lm ELSE e.X, IF e.kind = "rose" THEN <<>> ELSE RefKnn(e.k, e.X))
NPts(e) == IF e.k.kern = "cone" THEN Len(ConeFlow(e.k, e.X)) ELSE Len(e.X)
EigEq(A, v, x, tol) == \A i \in DOMAIN A : NLe(NAbs(NSub(NDot(A[i], x), NMul(v, x[i]))), NMul(tol, NMax2(1, NMaxAbs(A[i]))))
FitDmap(e) ==
    LET K == KXX(e.k, e.X) IN
    IF e.d.stoch /\ (Tiny(RowSums(K)) \/ Tiny(RowSums(Renorm(e.d, K, Dens(e.d, K))))) THEN {}
    ELSE LET A == DK(e.d, K) S == SymOf(e.d, K) conj == SymDist(e.k) /\ (e.d.sym \/ ~e.d.stoch)
             C == ColsOf(e.vecs) W == [j \in DOMAIN C |-> IF ~e.d.stoch THEN C[j] ELSE LET b == Basis(e.d, K, Dens(e.d, K)) IN [i \in DOMAIN C[j] |-> NDiv(C[j][i], b[i])]]
             sc == NMax2(1, MMaxAbs(A)) tol == NMul(sc, IF conj THEN "1e-7" ELSE "1e-6") IN
         IF e.err # "" THEN (IF conj /\ e.err = "NumericalMathError" THEN {"fit_failed"} ELSE IF e.err \in NumErr THEN {} ELSE {"fit_failed"})
         ELSE IF Len(e.vals) # e.n \/ ~MShape(e.vecs, NPts(e), e.n) THEN {"number_of_eigenpairs"}
         ELSE E1(Decreasing(e.vals), "eigenvalues_not_sorted")
              \cup E1(~SymDist(e.k) \/ \A j \in 1..e.n : NClose(NDot(C[j], C[j]), 1, "1e-8", "0"), "eigenvector_norm")
              \cup E1(~SymDist(e.k) \/ \A j \in 1..e.n : EigEq(A, e.vals[j], C[j], IF conj THEN "1e-7" ELSE "1e-6"), "eigen_equation")
              \cup E1(~conj \/ Orthogonal(W, "1e-5"), "eigenvectors_dependent")
              \cup E1(~SymDist(e.k) \/ ~((e.d.stoch /\ e.d.sym) \/ e.n = NPts(e) \/ Below(S, NMul(sc, "-1e-7")) = 0) \/ Complete(S, e.vals, NMul("1e-5", sc)), "leading_eigenvalue_missing")
              \cup E1(e.kmat = <<>> \/ MClose(e.kmat, A, "1e-8", "1e-14"), "stored_kernel_matrix")
FitRose(e) ==
    LET K == KernMat(e.k, e.X, e.lm, FALSE, <<>>).v IN
    IF e.err # "" THEN (IF e.lm = <<>> \/ Tiny(RowSums(K)) \/ Tiny(ColSums(K)) \/ e.n > Len(e.lm) THEN {} ELSE {"fit_failed"})
    ELSE IF ~NEq(e.d.alpha, 0) /\ (Tiny(RowSums(K)) \/ Tiny(ColSums(K))) THEN {}
    ELSE LET m == [K |-> K, d |-> e.d] M == RM(m, K) nd == NdOf(m, K)
             V == ColsOf(e.right) L == ColsOf(e.vecs) U == [j \in DOMAIN L |-> [i \in DOMAIN nd |-> IF NEq(nd[i], 0) THEN L[j][i] ELSE NDiv(L[j][i], nd[i])]]
             n == Len(e.X) MtM == MMul(MT(M), M) IN
         IF Len(e.vals) # e.n \/ ~MShape(e.vecs, n, e.n) \/ ~MShape(e.right, Len(e.lm), e.n) THEN {"number_of_eigenpairs"}
         ELSE E1(Decreasing(e.vals), "singular_values_not_sorted")
              \cup E1(\A j \in 1..e.n : NClose(NDot(V[j], V[j]), 1, "1e-7", "0"), "singular_vector_norm")
              \cup E1(Tiny(nd) \/ \A j \in 1..e.n : \A i \in 1..n : NClose(NDot(M[i], V[j]), NMul(e.vals[j], U[j][i]), "0", "1e-7"), "singular_equation")
              \cup E1(Tiny(nd) \/ \A j \in 1..e.n : \A i \in DOMAIN e.lm : NClose(NDot(MCol(M, i), U[j]), NMul(e.vals[j], V[j][i]), "0", "1e-7"), "singular_equation_left")
              \cup E1(Orthogonal(V, "1e-6"), "singular_vectors_dependent")
              \cup E1(Complete(MtM, [j \in 1..e.n |-> NMul(e.vals[j], e.vals[j])], "1e-5"), "leading_singular_value_missing")
              \cup E1(e.kmat = <<>> \/ MClose(e.kmat, M, "1e-8", "1e-14"), "stored_kernel_matrix")
              \cup E1(e.nlm = 0 \/ (Len(e.lm) = e.nlm /\ \A i \in DOMAIN e.lm : \E q \in DOMAIN e.X : VClose(e.X[q], e.lm[i], "1e-12", "0")), "landmarks_not_from_data")
FitOk(e) == IF FitMay(e) THEN {} ELSE IF e.n > NPts(e) THEN E1(Rejected(e), "too_many_eigenpairs_accepted") ELSE IF e.kind = "rose" THEN FitRose(e) ELSE FitDmap(e)
Fitted(e) ==
    IF e.err # "" THEN None
    ELSE [kind |-> e.kind, may |-> FitMay(e), k |-> e.k, d |-> e.d, n |-> e.n, X |-> e.X, lm |-> e.lm, vals |-> e.vals, vecs |-> e.vecs, right |-> e.right,
          K |-> IF e.kind = "rose" THEN KernMat(e.k, e.X, e.lm, FALSE, <<>>).v ELSE KXX(e.k, e.X), cols |-> e.cols, sel |-> s.sel, tc |-> s.tc]
\* ------------------------------------------------------------------ embedding
Tc == IF s.sel THEN s.tc ELSE [j \in 1..s.n |-> j - 1]
TcOk == \A j \in DOMAIN Tc : Tc[j] < s.n
VPow(t) == [j \in DOMAIN Tc |-> PowL(s.vals[Tc[j] + 1], IF s.kind = "rose" THEN NMul(2, t) ELSE t)]
Pre == IF s.kind = "rose" THEN "rose" ELSE "dmap"
QMay(e) == KernMay(s.k, e.X, IF s.kind = "rose" THEN s.lm ELSE s.X, IF s.kind = "rose" THEN <<>> ELSE RefKnn(s.k, s.X))
EmbVals(e) ==
    IF e.own THEN ScaleCols(PickCols(s.vecs, Tc), VPow(e.te))
    ELSE LET KY == IF s.kind = "rose" THEN KernMat(s.k, e.X, s.lm, FALSE, <<>>).v ELSE KYX(s.k, e.X, s.X)
             inv == [j \in DOMAIN Tc |-> NDiv(1, s.vals[Tc[j] + 1])] IN
         IF s.kind = "rose"
         THEN LET M == RM(s, KY) nd == NdOf(s, KY) R == MMul(M, ScaleCols(PickCols(s.right, Tc), inv)) IN
              ScaleCols([i \in DOMAIN R |-> VScale(nd[i], R[i])], VPow(e.te))
         ELSE ScaleCols(MMul(DKY(s.d, s.K, KY), ScaleCols(PickCols(s.vecs, Tc), inv)), VPow(e.te))
\* coordinates whose eigenvalue is too small for a stable division
Small == {j \in DOMAIN Tc : NLe(NAbs(s.vals[Tc[j] + 1]), IF s.kind = "rose" THEN "1e-3" ELSE "1e-4")}
QTiny(e) == IF e.own THEN FALSE
            ELSE IF s.kind = "rose" THEN LET KY == KernMat(s.k, e.X, s.lm, FALSE, <<>>).v IN ~NEq(s.d.alpha, 0) /\ (Tiny(RowSums(KY)) \/ Tiny(ColSums(s.K)))
            ELSE s.d.stoch /\ (Tiny(RowSums(KYX(s.k, e.X, s.X))))
WantIdx(e) == IF s.k.kern = "cone" THEN LET F == ConeFlow(s.k, e.X) IN [i \in DOMAIN F |-> <<F[i][1], F[i][2]>>] ELSE e.xi
EmbOk(e) ==
    IF e.err # "" THEN {"embedding_failed"}
    ELSE LET W == EmbVals(e) o == e.out IN
         IF Len(o.vals) # Len(W) \/ (\E i \in DOMAIN W : Len(o.vals[i]) # Len(Tc)) THEN {"embedding_shape"}
         ELSE E1(o.typ = e.typ, "embedding_type")
              \cup E1(e.typ = "np" \/ o.idx = WantIdx(e), "embedding_index")
              \cup E1(e.typ = "np" \/ o.cols = [j \in DOMAIN Tc |-> Pre \o ToString(Tc[j])], "embedding_columns")
              \cup E1(\A j \in DOMAIN Tc \ Small :
                        LET m == NMax2("1e-6", NMaxAbs([i \in DOMAIN W |-> W[i][j]])) IN
                        \A i \in DOMAIN W : ~NIsFin(W[i][j]) \/ NClose(o.vals[i][j], W[i][j], "1e-5", NMul("1e-5", m)), IF e.own THEN "fit_embedding_values" ELSE "embedding_values")
\* ------------------------------------------------------------- inverse mapping
FitRows == IF s.k.kern = "cone" THEN LET F == ConeFlow(s.k, s.X) IN ConePts(s.X, F) ELSE s.X
InvOk(e) ==
    LET V == PickCols(s.vecs, Tc) G == MMul(MT(V), V) W == MSolve(G, MMul(MT(V), FitRows)) sc == VPow(NNeg(e.te))
        E == [i \in DOMAIN e.X |-> [j \in DOMAIN Tc |-> NMul(e.X[i][j], sc[j])]] o == e.out IN
    IF Small # {} \/ ~NIsFin(MMaxAbs(W)) \/ NLe("1e3", NMul(MMaxAbs(W), NMax2(1, NDiv(1, NMaxAbs(FitRows[1]))))) THEN {}
    ELSE IF e.err # "" THEN {"inverse_failed"}
    ELSE LET P == MMul(E, W) IN
         IF Len(o.vals) # Len(P) \/ (\E i \in DOMAIN P : Len(o.vals[i]) # Len(P[i])) THEN {"inverse_shape"}
         ELSE E1(MClose(o.vals, P, "1e-5", NMul("1e-5", NMax2("1e-3", MMaxAbs(P)))), "inverse_values")
              \cup E1(o.typ = e.typ, "inverse_type")
              \cup E1(e.typ = "np" \/ (o.idx = e.xi /\ (s.cols = <<>> \/ o.cols = s.cols)), "inverse_index")
\* ---------------------------------------------------------------------- step
SetAdm(e) == e.tcint /\ e.tc # <<>> /\ \A j \in DOMAIN e.tc : e.tc[j] >= 0 /\ e.tc[j] < e.npar
Clauses(e) ==
    CASE e.op = "fit" -> FitOk(e) \cup E1(e.pre = e.after, "arguments_changed")
      [] e.op = "set" -> IF SetAdm(e) THEN E1(e.err = "", "set_target_coords_failed") ELSE E1(Rejected(e), "invalid_coordinates_accepted")
      [] e.op = "emb" -> E1(e.pre = e.after, "arguments_changed") \cup
            (IF s.kind = "none" THEN E1(e.err \in {"NotFittedError"}, "not_fitted_error")
             ELSE IF e.bad THEN E1(Rejected(e), "inadmissible_input_accepted")
             ELSE IF s.may \/ ~TcOk \/ (~e.own /\ QMay(e)) \/ QTiny(e) THEN {} ELSE EmbOk(e))
      [] e.op = "inv" -> E1(e.pre = e.after, "arguments_changed") \cup
            (IF s.kind = "none" THEN E1(e.err \in {"NotFittedError"}, "not_fitted_error")
             ELSE IF e.bad THEN E1(Rejected(e), "inadmissible_input_accepted") ELSE IF s.may \/ ~TcOk THEN {} ELSE InvOk(e))
      \* selection of coordinates by local regression: the largest residuals, never the trivial vector
      [] e.op = "lrs" ->
            IF e.err # "" THEN {"selection_failed"}
            ELSE LET c == [i \in DOMAIN e.res |-> i - 1] sel == {e.sel[i] : i \in DOMAIN e.sel} IN
                 E1(\A i \in 1..(Len(e.sel) - 1) : e.sel[i] < e.sel[i + 1], "selection_order")
                 \cup E1(0 \notin sel, "trivial_vector_selected")
                 \cup (IF e.strategy = "dim"
                       THEN E1(Len(e.sel) = e.dim, "selection_size") \cup
                            E1(\A i \in sel : \A j \in (1..(Len(e.res) - 1)) \ sel : NLe(e.res[j + 1], e.res[i + 1]), "smaller_residual_selected")
                       ELSE E1(sel = {i \in 1..(Len(e.res) - 1) : NLt(e.thr, e.res[i + 1])}, "threshold_selection"))
                 \cup E1(NEq(e.res[2], 1) /\ \A i \in 2..Len(e.res) : NLe(0, e.res[i]), "residual_range")
                 \cup E1(e.zero = <<>> \/ \A i \in DOMAIN e.zero : NLe(e.res[e.zero[i] + 1], "1e-5"), "residual_of_a_linear_function")
                 \cup E1(e.out.vals = [i \in DOMAIN e.X |-> [j \in DOMAIN e.sel |-> e.X[i][e.sel[j] + 1]]], "selected_values")
                 \cup E1(e.typ = "np" \/ e.out.cols = [j \in DOMAIN e.sel |-> e.cols[e.sel[j] + 1]], "selected_names")
      [] e.op = "crash" -> {"crash:" \o e.err}
      [] OTHER -> {}
Sorted(t) == [i \in DOMAIN t |-> CHOOSE v \in {t[j] : j \in DOMAIN t} : Cardinality({j \in DOMAIN t : t[j] < v}) = i - 1]
Step(e) ==
    CASE e.op = "new" -> None
      [] e.op = "fit" -> Fitted(e)
      [] e.op = "set" -> IF e.err = "" /\ SetAdm(e) THEN [s EXCEPT !.sel = TRUE, !.tc = Sorted(e.tc)] ELSE s
      [] OTHER -> s
Next == /\ l <= Len(Trace)
        /\ \A c \in Clauses(Trace[l]) : PrintT(<<"VIO", l, c>>)
        /\ s' = Step(Trace[l])
        /\ l' = l + 1
Init == l = 1 /\ s = None
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
