------------------------------- MODULE T_TRV -------------------------------
(***************************************************************************)
(* Trace specification of transformer values (T02).  Every event carries   *)
(* the parameters k, the fit data D, the input X and the observed result R *)
(* (and learned matrices where the map is determined up to a choice, as    *)
(* for principal components).                                              *)
(***************************************************************************)
EXTENDS Trf, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E1(b, c) == IF b THEN {} ELSE {c}
RejErr(e) == e.err # "" /\ e.err # "timeout"
Learned(e) ==
    CASE e.k.cls = "pca" -> E1(PCAOk(e.k, e.D), "principal_components") \cup E1(VClose(e.mean, ColMeans(e.D), "1e-9", "1e-9"), "mean")
      [] e.k.cls = "rbf" -> E1(CentersOk(e.k, e.D, e.centers), "centers")
      [] OTHER -> {}
Clauses(e) ==
    CASE e.op = "trv" ->
           IF e.err # "" THEN {"transform_failed"}
           ELSE Learned(e)
                \cup LET W == Out(e.k, e.D, e.X) IN
                     E1(Named(e.X) => e.R.cols = W.cols, "column_names")
                     \cup E1(ValsMatch(e.R, W, "1e-7", Tol(W)), "values")
      [] e.op = "inv" ->     \* inverse of arbitrary coordinates
           IF e.err # "" THEN {"inverse_failed"}
           ELSE E1(e.R.idx = e.Y.idx, "inverse_samples")
                \cup E1(Named(e.Y) => e.R.cols = e.D.cols, "inverse_names")
                \cup (IF e.k.cls = "rbf" THEN {} ELSE E1(MClose(e.R.vals, InvOut(e.k, e.D, e.Y), "1e-7", Tol(e.R)), "inverse_values"))
      [] e.op = "round" ->   \* inverse of the transformed X (rbf: X are the centers)
           IF e.err # "" THEN {"round_trip_failed"}
           ELSE IF ~Lossless(e.k, e.D) THEN {}
           ELSE LET keep == SelectSeq([i \in DOMAIN e.X.idx |-> i], LAMBDA i : e.X.idx[i] \in Range1(e.T.idx)) IN
                E1(Len(keep) = Len(e.R.idx) /\ \A i \in DOMAIN keep : \E j \in DOMAIN e.R.idx :
                      e.R.idx[j] = e.X.idx[keep[i]] /\ VClose(e.R.vals[j], e.X.vals[keep[i]], "1e-5", NMul("1e-5", NMax2(1, MMaxAbs(e.X.vals)))), "round_trip")
      [] e.op = "crash" -> {"crash:" \o e.err}
      [] OTHER -> {}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ \A c \in Clauses(Trace[l]) : PrintT(<<"VIO", l, c>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
