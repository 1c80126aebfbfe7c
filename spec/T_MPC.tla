------------------------------- MODULE T_MPC -------------------------------
(***************************************************************************)
(* Trace specification of the controllers (P01).                           *)
(* s : the controller: model matrices, names, costs, bounds, time step.    *)
(***************************************************************************)
EXTENDS Mpc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
E1(b, c) == IF b THEN {} ELSE {c}
Rejected(e) == e.err # "" /\ e.err # "timeout"
None == [kind |-> "none"]
PosOf(names, n) == IF \E i \in DOMAIN names : names[i] = n THEN CHOOSE i \in DOMAIN names : names[i] = n ELSE 0
\* costs: a number for all, or one entry per coordinate
Vec(c, n) == IF c.sc THEN [i \in 1..n |-> c.v[1]] ELSE c.v
CostAdm(c, n) == (c.sc \/ Len(c.v) = n) /\ \A i \in DOMAIN c.v : NLe(0, c.v[i])
QNames(e) == IF e.qn = <<>> THEN e.fin ELSE e.qn
NewAdm(e) == LET n == Len(QNames(e)) IN
    /\ e.hz >= 2
    /\ \A i \in DOMAIN e.qn : PosOf(e.fin, e.qn[i]) # 0
    /\ CostAdm(e.cr, n) /\ CostAdm(e.ct, n) /\ CostAdm(e.cu, Len(e.uin))
    /\ (e.sb = <<>> \/ Len(e.sb) = n) /\ (e.ib = <<>> \/ Len(e.ib) = Len(e.uin))
IsZero(v) == \A i \in DOMAIN v : NEq(v[i], 0)
Model(e) == LET n == Len(QNames(e)) IN
    [kind |-> "mpc", A |-> e.A, B |-> e.B, fin |-> e.fin, uin |-> e.uin, qn |-> QNames(e), q |-> [j \in 1..n |-> PosOf(e.fin, QNames(e)[j])],
     hz |-> e.hz, cr |-> Vec(e.cr, n), ct |-> Vec(e.ct, n), cu |-> Vec(e.cu, Len(e.uin)), sb |-> e.sb, ib |-> e.ib, dt |-> e.dt, ctz |-> IsZero(e.ct.v), efin |-> e.efin, nic |-> e.nic, xref |-> <<>>]
\* ------------------------------------------------------------ one sequence
RefAdm(e) == /\ e.zn = 1
             /\ Len(e.ref) = s.hz /\ Len(e.refcols) = Len(s.qn)
             /\ e.ref # <<>> /\ e.ref[1].t = e.ict + s.dt
\* the reference columns are named (in any order), or unrelated names in the order of the quantities of interest
SameNames(e) == {e.refcols[i] : i \in DOMAIN e.refcols} = {s.qn[i] : i \in DOMAIN s.qn}
RefVals(e) == Deep([k \in DOMAIN e.ref |-> IF SameNames(e) THEN [j \in DOMAIN s.qn |-> e.ref[k].v[PosOf(e.refcols, s.qn[j])]] ELSE e.ref[k].v])
RefTimesOk(e) == \A k \in DOMAIN e.ref : e.ref[k].t = e.ict + k * s.dt
CtrlTimes(e) == [k \in 1..s.hz |-> e.ict + (k - 1) * s.dt]
\* witness sequences that satisfy all bounds (from the driver, checked here)
Wit(e) == {w \in {e.wit[i] : i \in DOMAIN e.wit} : Feasible(s, e.z, w, "0")}
Singular == \E i \in DOMAIN s.cu : NLe(s.cu[i], "1e-6")
Best(m, e, us) ==
    LET r == RefVals(e) v == J(m, e.z, us, r) o == Optimal(m, e.z, us, r) IN
    E1(o # "no" /\ \A w \in Wit(e) : NLe(v, NAdd(J(m, e.z, w, r), NMul("1e-6", NMax2("1e-6", NAbs(v))))), "control_not_optimal")
SeqOk(e) ==
    IF ~RefAdm(e) THEN E1(Rejected(e), "inadmissible_reference_accepted")
    ELSE IF ~RefTimesOk(e) THEN {}
    ELSE IF e.err # "" THEN E1(Singular \/ ((s.sb # <<>> \/ s.ib # <<>>) /\ Wit(e) = {}), "no_control_found")
    ELSE LET us == e.u IN
         IF Len(us) # s.hz \/ (\E k \in DOMAIN us : Len(us[k]) # Len(s.uin)) THEN {"control_shape"}
         ELSE E1(e.ut = CtrlTimes(e), "control_times")
              \cup E1(e.ucols = s.uin, "control_names")
              \cup E1(e.uid = e.id, "control_series_id")
              \cup E1(Feasible(s, e.z, us, "1e-6"), "bounds_violated")
              \cup (IF Singular THEN {} ELSE IF ~s.ctz THEN Best(s, e, us)
                    ELSE IF Best(s, e, us) = {} \/ Best([s EXCEPT !.ct = s.cr], e, us) = {} THEN {} ELSE {"control_not_optimal"})
              \cup E1(e.applied = <<>> \/ VClose(e.applied, us[1], "1e-6", NMul("1e-7", NMax2("1e-3", MMaxAbs(us)))), "applied_control")
\* the internal model's prediction under the returned control (coordinates that are states)
PredOk(e) ==
    IF e.err # "" THEN {"prediction_of_control_failed"}
    ELSE LET Z == Roll(s, e.z, e.u) I == {j \in DOMAIN e.cols : PosOf(s.fin, e.cols[j]) # 0} IN
         E1(Len(e.out) = s.hz + 1 /\ \A k \in DOMAIN e.out : \A j \in I :
              NClose(e.out[k][j], Z[k][PosOf(s.fin, e.cols[j])], "1e-6", NMul("1e-7", NMax2(1, MMaxAbs(Z)))), "prediction_of_control")
\* ------------------------------------------------------------ closed loop
LoopOk(e) ==
    IF e.err # "" THEN {"closed_loop_failed"}
    ELSE LET n == Len(e.xref) - 1 IN
         E1(Len(e.calls) = n /\ Len(e.u) = n, "number_of_steps")
         \cup E1(\A i \in 1..n : i \in DOMAIN e.u => e.ut[i] = e.xref[i].t - s.dt, "control_times")
         \cup E1(\A i \in 1..n : i \in DOMAIN e.calls /\ i \in DOMAIN e.u =>
                   /\ e.calls[i].t = <<e.xref[i].t - s.dt, e.xref[i].t>>
                   /\ VClose(e.calls[i].u, e.u[i], "1e-12", "0")
                   /\ VClose(e.calls[i].x, IF i = 1 THEN e.x0 ELSE e.calls[i - 1].y, "1e-12", "0"), "system_calls")
         \cup E1(Len(e.st) = n + 1 /\ \A i \in 1..n : i \in DOMAIN e.calls /\ i + 1 \in DOMAIN e.st => e.stt[i + 1] = e.xref[i].t /\ VClose(e.st[i + 1], e.calls[i].y, "1e-12", "0"), "system_states")
\* the reference of step i: the next hz reference states, the last one repeated
Window(i) == [k \in 1..s.hz |-> IF i + k - 1 <= Len(s.xref) THEN s.xref[i + k - 1] ELSE [t |-> s.xref[i].t + (k - 1) * s.dt, v |-> s.xref[Len(s.xref)].v]]
StepOk(e) == IF [k \in DOMAIN e.ref |-> e.ref[k].v] # [k \in 1..s.hz |-> Window(e.i)[k].v] THEN {"MODEL_window"} ELSE SeqOk(e)
LqrOk(e) ==
    LET A == e.A B == e.B n == Len(A) adm == CostAdm(e.cr, n) /\ CostAdm(e.cu, Len(e.uin)) IN
    IF ~adm THEN E1(Rejected(e), "inadmissible_costs_accepted")
    ELSE LET Q == Diag(Vec(e.cr, n)) R == Diag(Vec(e.cu, Len(e.uin))) f == Deep(Riccati(A, B, Q, R, Q, 400)) IN
         IF ~f.ok \/ (\E i \in DOMAIN R : NLe(R[i][i], "1e-6")) \/ IsZero(Vec(e.cr, n)) THEN {}
         ELSE IF e.err # "" THEN {"regulator_failed"}
         ELSE LET u == VScale(-1, MVec(f.F, VSub(e.z, e.zt))) IN
              E1(Len(e.u) = 1 /\ Len(e.u[1]) = Len(u) /\ VClose(e.u[1], u, "1e-6", NMul("1e-6", NMax2(1, NMaxAbs(u)))), "regulator_control")
              \cup E1(e.ucols = e.uin /\ e.ut = <<e.ict>> /\ e.uid = e.id, "regulator_control_index")
Clauses(e) ==
    CASE e.op = "ctrl" -> E1(e.pre = e.after, "model_changed") \cup
              (IF NewAdm(e) THEN E1(e.err = "", "controller_failed") ELSE E1(Rejected(e), "inadmissible_settings_accepted"))
      [] e.op = "seq" -> E1(e.pre = e.after, "model_or_arguments_changed") \cup (IF s.kind = "none" THEN {} ELSE SeqOk(e))
      [] e.op = "pred" -> IF s.kind = "none" THEN {} ELSE PredOk(e)
      [] e.op = "loop" -> IF s.kind = "none" THEN {} ELSE LoopOk(e)
      [] e.op = "step" -> IF s.kind = "none" THEN {} ELSE StepOk(e)
      [] e.op = "lqr" -> E1(e.pre = e.after, "model_or_arguments_changed") \cup LqrOk(e)
      [] e.op = "crash" -> {"crash:" \o e.err}
      [] OTHER -> {}
Step(e) ==
    CASE e.op = "new" -> None
      [] e.op = "ctrl" -> IF e.err = "" /\ NewAdm(e) THEN Model(e) ELSE None
      [] e.op = "loop" -> IF s.kind = "none" THEN s ELSE [s EXCEPT !.xref = e.xref]
      [] OTHER -> s
Next == /\ l <= Len(Trace)
        /\ \A c \in Clauses(Trace[l]) : PrintT(<<"VIO", l, c>>)
        /\ s' = Step(Trace[l])
        /\ l' = l + 1
Init == l = 1 /\ s = None
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
