------------------------------- MODULE T_KER -------------------------------
(***************************************************************************)
(* Trace specification of the kernels (K02).                               *)
(* An event is one evaluation of a kernel object (e.obj: base, dmap, rose).*)
(* s : what the object keeps of its reference points (computed by the      *)
(* specification from the first evaluation, never taken from the object).  *)
(***************************************************************************)
EXTENDS Ker2, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
E1(b, c) == IF b THEN {} ELSE {c}
Rejected(e) == e.err # "" /\ e.err # "timeout"
Q(e) == IF e.pd THEN e.X ELSE e.Y
NoRef == [set |-> FALSE, unk |-> FALSE, q |-> <<>>, ld |-> <<>>, sn |-> <<>>, rd |-> <<>>]
RefKnn(e) == IF e.k.kern = "cnn" THEN KnnDist(e.k, D2(e.X, e.X)) ELSE <<>>
Rd(e) == IF e.pd THEN RefKnn(e) ELSE s.rd
KM(e) == KernMat(e.k, Q(e), e.X, e.pd, Rd(e))
Tiny(v) == \E i \in DOMAIN v : NLe(NAbs(v[i]), "1e-250") \/ ~NIsFin(v[i])
\* reference quantities of the first evaluation
NewRef(e) ==
    IF e.err # "" THEN s
    ELSE IF e.pd /\ KernMay(e.k, Q(e), e.X, Rd(e)) THEN [NoRef EXCEPT !.set = TRUE, !.unk = TRUE]
    ELSE CASE e.obj = "base" -> IF e.pd THEN [NoRef EXCEPT !.set = TRUE, !.rd = RefKnn(e)] ELSE s
           [] e.obj = "dmap" -> IF ~e.pd THEN s
                                ELSE [NoRef EXCEPT !.set = TRUE, !.rd = RefKnn(e), !.q = IF e.d.stoch THEN Dens(e.d, KM(e).v) ELSE <<>>]
           [] e.obj = "rose" -> IF s.set THEN s
                                ELSE LET K == KM(e).v ld == ColSums(K) IN
                                     [NoRef EXCEPT !.set = TRUE, !.ld = ld, !.sn = ColSums(RoseDens(e.d.alpha, K, ld))]
\* rows / columns without any neighbour cannot be density normalized
DensMay(e, K) ==
    CASE e.obj = "dmap" -> e.d.stoch /\ (IF NEq(e.d.alpha, 0) THEN \E i \in DOMAIN K : NSum(K[i]) # "0" /\ Tiny(<<NSum(K[i])>>) /\ ~NEq(NSum(K[i]), 0)
                                         ELSE Tiny(RowSums(K)) \/ (~e.pd /\ Tiny(s.q)))
      [] e.obj = "rose" -> ~NEq(e.d.alpha, 0) /\ (Tiny(RowSums(K)) \/ Tiny(IF s.set THEN s.ld ELSE ColSums(K)))
      [] OTHER -> FALSE
Want(e, K) ==
    CASE e.obj = "base" -> K
      [] e.obj = "dmap" -> DmapMat(e.d, e.k, K, IF e.pd THEN Dens(e.d, K) ELSE s.q, e.pd)
      [] e.obj = "rose" -> LET ld == IF s.set THEN s.ld ELSE ColSums(K)
                               sn == IF s.set THEN s.sn ELSE ColSums(RoseDens(e.d.alpha, K, ld)) IN RoseMat(e.d.alpha, K, ld, sn)
Stored(R, i) == {R.rows[i][q][1] : q \in DOMAIN R.rows[i]}
At(R, i, j) == IF \E q \in DOMAIN R.rows[i] : R.rows[i][q][1] = j THEN R.rows[i][CHOOSE q \in DOMAIN R.rows[i] : R.rows[i][q][1] = j][2] ELSE "0"
Dn(R) == [i \in DOMAIN R.rows |-> [j \in 1..R.shape[2] |-> At(R, i, j)]]
Typ(e) == IF e.k.kern = "cone" THEN "frame" ELSE IF IsSparse(e.k) THEN "sparse" ELSE "dense"
Sym(A) == \A i \in DOMAIN A : \A j \in DOMAIN A : NClose(A[i][j], A[j][i], "1e-12", "1e-280")
ResultOk(e) ==
    LET KK == KM(e) K == KK.v R == e.R m == Len(K) n == Len(K[1]) IN
    IF DensMay(e, K) THEN {}
    ELSE IF e.err # "" THEN {"kernel_failed"}
    ELSE IF R.shape # <<m, n>> THEN {"shape"}
    ELSE IF R.typ # Typ(e) THEN {"matrix_type"}
    ELSE LET W == Want(e, K) A == Dn(R) IN
         E1(\A i \in 1..m : \A j \in 1..n : NClose(A[i][j], W[i][j], "1e-8", NMax2("1e-270", IF e.obj = "base" THEN 0 ELSE NMul("1e-20", NMaxAbs(W[i])))), "kernel_value")
         \cup E1(\A i \in 1..m : Stored(R, i) \subseteq KK.st[i], "stored_pairs")
         \cup E1(e.obj # "dmap" \/ ~e.d.stoch \/ (e.pd /\ Conj(e.d, e.k)) \/ \A i \in 1..m : NClose(NSum(A[i]), 1, "1e-8", "0") \/ \A j \in 1..n : NEq(W[i][j], 0), "row_sums")
         \cup E1(~(e.pd /\ e.issym) \/ Sym(A), "not_symmetric")
         \cup E1(~e.pd \/ e.obj # "dmap" \/ (IF Conj(e.d, e.k) THEN VClose(e.basis, Basis(e.d, K, Dens(e.d, K)), "1e-8", "0") ELSE e.basis = <<>>), "basis_change")
         \cup (IF e.k.kern # "cone" THEN {}
               ELSE LET F == ConeFlow(e.k, Q(e)) IN
                    E1(R.idx = [i \in DOMAIN F |-> <<F[i][1], F[i][2]>>], "row_index"))
Dim(P) == {Len(P[i]) : i \in DOMAIN P}
Clauses(e) ==
    CASE e.op = "kern" ->
            E1(e.pre = e.after, "arguments_changed") \cup
            (IF e.bad THEN E1(Rejected(e), "inadmissible_input_accepted")
             ELSE IF e.obj \in {"dmap"} /\ ~e.pd /\ ~s.set THEN E1(Rejected(e), "query_without_reference_accepted")
             ELSE IF e.k.kern = "cnn" /\ ~e.pd /\ ~s.set THEN E1(Rejected(e), "query_without_reference_accepted")
             ELSE IF e.pd /\ s.set /\ (e.obj = "dmap" \/ e.k.kern = "cnn") /\ e.err # "" THEN {}    \* a second pair-wise evaluation may be refused
             ELSE IF (~e.pd /\ s.unk) \/ KernMay(e.k, Q(e), e.X, Rd(e)) THEN {}
             ELSE ResultOk(e))
      [] e.op = "obj" -> E1(e.err = "", "construction_failed") \cup E1(e.pre = e.after, "distance_options_changed")
      [] e.op = "crash" -> {"crash:" \o e.err}
      [] OTHER -> {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ \A c \in Clauses(e) : PrintT(<<"VIO", l, c>>)
           /\ s' = IF e.op = "obj" THEN NoRef ELSE IF e.op = "kern" /\ ~e.bad THEN NewRef(e) ELSE s
        /\ l' = l + 1
Init == l = 1 /\ s = NoRef
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
