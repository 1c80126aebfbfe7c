------------------------------- MODULE T_LIN -------------------------------
(***************************************************************************)
(* Trace specification of linear system evaluation (M02).  An event gives  *)
(* the system by its spectrum (T, blocks) or its matrix A (control: B or   *)
(* N), the initial states x0, the times (as real numbers and as ticks of   *)
(* the output), the control rows us per initial state, an optional linear  *)
(* output map post, and the resulting collection R.                        *)
(***************************************************************************)
EXTENDS TSC, Num, Lin, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E1(b, c) == IF b THEN {} ELSE {c}
Rejected(e) == e.err # "" /\ e.err # "timeout"
NX(e) == Len(e.A)
NControls(e) == IF e.ctrl = "affine" THEN Len(e.times) ELSE Len(e.times) - 1
\* the input has consistent dimensions
DimsOk(e) ==
    /\ \A i \in DOMAIN e.x0 : Len(e.x0[i]) = NX(e)
    /\ (e.type = "flowmap" => e.dt # "none" /\ NLt(0, e.dt))
    /\ (e.ctrl # "none" =>
            /\ Len(e.us) = Len(e.x0)
            /\ \A i \in DOMAIN e.us : Len(e.us[i]) = NControls(e)
               /\ \A q \in DOMAIN e.us[i] : Len(e.us[i][q]) = (IF e.ctrl = "affine" THEN Len(e.N) ELSE Len(e.B[1])))
    /\ (e.names # <<>> => Len(e.names) = (IF e.post # <<>> THEN Len(e.post) ELSE NX(e)))
    /\ (e.ids # <<>> => Len(e.ids) = Len(e.x0))
Traj(e, i) ==
    LET x == e.x0[i]
        st(q) == CASE e.ctrl = "none" /\ e.type = "flowmap" -> LET s == NDiv(e.times[q], e.dt) IN
                                IF e.blocks # <<>> THEN FlowAt(e.T, e.blocks, x, s) ELSE MVec(MPow(e.A, e.ns[q]), x)
                   [] e.ctrl = "none" /\ e.type = "differential" -> IF e.blocks # <<>> THEN GenAt(e.T, e.blocks, x, e.times[q])
                                                                    ELSE MVec(MExp(MScale(e.times[q], e.A)), x)
    IN IF e.ctrl = "none" THEN [q \in DOMAIN e.times |-> st(q)]
       ELSE IF e.ctrl = "linear" /\ e.type = "flowmap" THEN StepsFrom(e.A, e.B, x, e.us[i])
       ELSE IF e.ctrl = "linear" THEN ZOHFrom(e.A, e.B, x, e.us[i], e.times)
       ELSE AffineFrom(e.A, e.N, e.times, e.us[i], x, 1)
Ids(e) == IF e.ids # <<>> THEN e.ids ELSE [i \in DOMAIN e.x0 |-> i - 1]
Names(e) == IF e.names # <<>> THEN e.names ELSE [j \in 1..(IF e.post # <<>> THEN Len(e.post) ELSE NX(e)) |-> ToString(j - 1)]
Post(e, v) == IF e.post # <<>> THEN MVec(e.post, v) ELSE v
Clauses(e) ==
    CASE e.op = "evolve" ->
        IF ~DimsOk(e) THEN E1(Rejected(e), "inadmissible_input_accepted")
        ELSE IF e.err # "" THEN {"evolve_failed"}
        ELSE LET n == Len(e.times)
                 want == Flat([i \in DOMAIN e.x0 |-> [q \in 1..n |-> <<Ids(e)[i], e.ticks[q]>>]])
                 pos(i) == CHOOSE p \in DOMAIN e.R.idx : e.R.idx[p] = <<Ids(e)[i], e.ticks[1]>>
                 OkIdx == Len(e.R.idx) = Len(want) /\ \A i \in DOMAIN e.x0 : \E p \in DOMAIN e.R.idx :
                             p + n - 1 <= Len(e.R.idx) /\ \A q \in 1..n : e.R.idx[p + q - 1] = <<Ids(e)[i], e.ticks[q]>>
             IN E1(e.R.typ = "tsc", "result_type") \cup E1(OkIdx, "result_index") \cup E1(e.R.cols = Names(e), "result_names")
                \cup (IF ~OkIdx THEN {}
                      ELSE E1(\A i \in DOMAIN e.x0 :
                                LET W == Traj(e, i) mx == NMax2("1e-6", MMaxAbs(W)) IN
                                \A q \in 1..n : VClose(e.R.vals[pos(i) + q - 1], Post(e, W[q]), 0, NMul(e.tol, mx)), "trajectory"))
                \cup E1(e.pre = e.after, "system_changed")
      [] e.op = "crash" -> {"crash:" \o e.err}
      [] OTHER -> {}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ \A c \in Clauses(Trace[l]) : PrintT(<<"VIO", l, c>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
