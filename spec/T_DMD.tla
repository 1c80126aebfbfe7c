------------------------------- MODULE T_DMD -------------------------------
(***************************************************************************)
(* Trace specification of the DMD models: identification (M03), prediction *)
(* (M01, M02), control input (M05), reconstruction (M07).                  *)
(* An event carries the model parameters k, the data frames and the result. *)
(*   k.cls  : std | gfull | ctrl | affine | pre (given system matrix)      *)
(*   k.typ  : flowmap | differential      k.mode : matrix | spectral       *)
(* learned attributes: m = [A, B, N, V, ev, W]  (W: left eigenvectors)     *)
(***************************************************************************)
EXTENDS TSC, Num, Lin, Temporal, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E1(b, c) == IF b THEN {} ELSE {c}
Rejected(e) == e.err # "" /\ e.err # "timeout"
Rows(F) == [i \in DOMAIN F.idx |-> <<F.idx[i][1], F.idx[i][2], F.vals[i]>>]
FinF(F) == \A i \in DOMAIN F.vals : \A j \in DOMAIN F.vals[i] : F.vals[i][j] \notin {"nan", "inf", "-inf"}
IdSeq(F) == AppIds(Rows(F))
\* consecutive samples of one series
Pairs(F) == LET R == Rows(F) IN
    Flat([q \in DOMAIN IdSeq(F) |-> LET s == SerOf(R, IdSeq(F)[q]) IN [i \in 1..(Len(s) - 1) |-> <<s[i], s[i + 1]>>]])
Steps(F) == {p[2][2] - p[1][2] : p \in Range1(Pairs(F))}
\* every series has at least two samples and all have the same sampling
Regular(F) == Cardinality(Steps(F)) = 1 /\ \A id \in IdsOf(Rows(F)) : Len(SerOf(Rows(F), id)) >= 2
TickStep(F) == CHOOSE d \in Steps(F) : TRUE
IdxSet(F) == Range1(F.idx)
LastOf(F, id) == LET s == SerOf(Rows(F), id) IN <<id, s[Len(s)][2]>>
\* control index: all samples except the last one of each series (discrete time) or all samples
ControlIdx(k, F) == IF k.cls = "affine" THEN IdxSet(F) ELSE IdxSet(F) \ {LastOf(F, id) : id \in IdsOf(Rows(F))}
Controlled(k) == k.cls \in {"ctrl", "affine"}
URow(U, id, t) == U.vals[CHOOSE i \in DOMAIN U.idx : U.idx[i] = <<id, t>>]
\* ------------------------------------------------------------ identification
FitOk(e) ==
    /\ e.X.typ = "tsc" /\ FinF(e.X) /\ Regular(e.X)
    /\ (Controlled(e.k) => e.U.typ = "tsc" /\ FinF(e.U) /\ NoDup(e.U.idx) /\ IdxSet(e.U) = ControlIdx(e.k, e.X))
    /\ (e.w # <<>> => Len(e.w) = Len(Pairs(e.X)))
\* same rows in another order: rejecting is admissible as well
FitMay(e) == Controlled(e.k) /\ e.U.idx # SelectSeq(e.X.idx, LAMBDA r : r \in ControlIdx(e.k, e.X))
Kron(u, x) == Flat([j \in DOMAIN u |-> VScale(u[j], x)])
\* regression rows <<regressor z, target y, weight>>
Regr(e) ==
    LET P == Pairs(e.X) IN
    CASE e.k.cls = "std" -> [i \in DOMAIN P |-> <<P[i][1][3], P[i][2][3], IF e.w = <<>> THEN 1 ELSE e.w[i]>>]
      [] e.k.cls = "ctrl" -> [i \in DOMAIN P |-> <<P[i][1][3] \o URow(e.U, P[i][1][1], P[i][1][2]), P[i][2][3], 1>>]
      [] e.k.cls \in {"gfull", "affine"} ->
            LET D == CatBy([rows |-> Rows(e.X)], IdSeq(e.X), LAMBDA s : FDSeries(s, FDTable(e.k.scheme, 1, e.k.acc), e.k.spacing, 1, FALSE))
                at(r) == e.X.vals[CHOOSE i \in DOMAIN e.X.idx : e.X.idx[i] = <<r[1], r[2]>>]
            IN [i \in DOMAIN D |-> <<at(D[i]) \o (IF e.k.cls = "affine" THEN Kron(URow(e.U, D[i][1], D[i][2]), at(D[i])) ELSE <<>>), D[i][3], 1>>]
Gram(R) == LET Z == [i \in DOMAIN R |-> R[i][1]] ZW == [i \in DOMAIN R |-> VScale(R[i][3], R[i][1])] IN MMul(MT(ZW), Z)
Cross(R) == LET ZW == [i \in DOMAIN R |-> VScale(R[i][3], R[i][1])] Y == [i \in DOMAIN R |-> R[i][2]] IN MMul(MT(Y), ZW)
HCat(A, B) == [i \in DOMAIN A |-> A[i] \o B[i]]
RECURSIVE HCatAll(_)
HCatAll(s) == IF Len(s) = 1 THEN s[1] ELSE HCat(s[1], HCatAll(Tail(s)))
Learned(e) == CASE e.k.cls = "ctrl" -> HCat(IF e.m.A # <<>> THEN e.m.A ELSE CMul(CScaleCols(e.m.V, e.m.ev), e.m.W)[1], e.m.B) [] e.k.cls = "affine" -> HCatAll(<<e.m.A>> \o e.m.N) [] OTHER -> e.m.A
LS(R) == MT(MSolve(Gram(R), MT(Cross(R))))
NormalEq(M, R) ==
    LET G == Gram(R) H == Cross(R) IN
    MClose(MMul(M, G), H, 0, NMul("1e-7", NMax2(NMul(NMul(Len(G), MMaxAbs(M)), MMaxAbs(G)), NMax2(MMaxAbs(H), "1e-12"))))
EvMax(ev) == NSqrt(NMax2("1e-12", NMaxAbs([j \in DOMAIN ev[1] |-> CAbs2(ev, j)])))
EigEq(A, V, ev, tol) ==
    CClose(CMul(CReal(A), V), CScaleCols(V, ev), 0, NMul(tol, NMax2("1e-12", NMul(NMax2(MMaxAbs(A), EvMax(ev)), NMax2(MMaxAbs(V[1]), MMaxAbs(V[2]))))))
ColsNonZero(V) == \A j \in 1..Len(V[1][1]) : NLt("1e-10", NMax2(NMaxAbs(MCol(V[1], j)), NMaxAbs(MCol(V[2], j))))
\* reduced rank: e.m.U are the r leading left singular vectors of the snapshot matrix
RankClauses(e) ==
    LET P == Pairs(e.X) X == MT([i \in DOMAIN P |-> P[i][1][3]]) Y == MT([i \in DOMAIN P |-> P[i][2][3]]) U == e.m.U
        S == MMul(MMul(MT(U), X), MMul(MT(X), U)) M == MT(MSolve(MT(S), MT(MMul(Y, MMul(MT(X), U)))))
        Ar == MMul(M, MT(U))  Op == IF e.k.rmode = "exact" THEN Ar ELSE MMul(MMul(U, MT(U)), Ar)
    IN E1(Len(e.m.V[1][1]) = e.k.rank /\ Len(e.m.ev[1]) = e.k.rank, "number_of_modes")
       \cup E1(ColsNonZero(e.m.V), "zero_mode")
       \cup E1(EigEq(Op, e.m.V, IF e.k.gen THEN CExpEv(e.m.ev, e.k.spacing) ELSE e.m.ev, "1e-6"), "mode_equation")
\* the identified state matrix from the data alone
LSState(e) == LET M == LS(Regr(e)) n == Len(e.X.cols) IN [i \in DOMAIN M |-> SubSeq(M[i], 1, n)]
SysMat(e) == IF e.m.A # <<>> THEN e.m.A ELSE LSState(e)
Recomposed(e) == CMul(CScaleCols(e.m.V, e.m.ev), e.m.W)[1]
FlowEv(e) == IF e.k.gen THEN CExpEv(e.m.ev, e.k.spacing) ELSE e.m.ev
FlowMat(e) == IF e.k.gen /\ e.m.A # <<>> THEN MExp(MScale(e.k.spacing, e.m.A)) ELSE SysMat(e)
FitClauses(e) ==
    IF ~FitOk(e) THEN E1(Rejected(e), "inadmissible_data_accepted")
    ELSE IF e.err # "" THEN (IF FitMay(e) THEN {} ELSE {"fit_failed"})
    ELSE E1(e.pre = e.after, "fit_changes_arguments")
         \cup E1(e.dt = TickStep(e.X), "sampling_interval")
         \cup E1(e.fin = e.X.cols /\ (Controlled(e.k) => e.uin = e.U.cols), "names")
         \cup (IF e.k.rank # 0 THEN RankClauses(e)
               ELSE E1(e.m.A # <<>> \/ (e.k.cls = "ctrl" /\ e.wc) => NormalEq(IF e.k.gen THEN FlowMat(e) ELSE Learned(e), Regr(e)), "normal_equations")
                    \cup E1(e.truth # <<>> /\ (e.m.A # <<>> \/ (e.k.cls = "ctrl" /\ e.wc)) => MClose(Learned(e), e.truth, "1e-5", NMul("1e-5", MMaxAbs(e.truth))), "exact_identification")
                    \cup (IF e.m.V = <<>> \/ ~e.wc THEN {}
                          ELSE E1(Len(e.m.V[1][1]) = Len(e.X.cols), "number_of_modes") \cup E1(ColsNonZero(e.m.V), "zero_mode")
                               \cup E1(EigEq(IF e.k.gen THEN LSState(e) ELSE SysMat(e), e.m.V, FlowEv(e), "1e-6"), "eigen_equation")
                               \cup E1(e.m.W # <<>> => LET L == CMul(CScaleCols(e.m.V, FlowEv(e)), e.m.W) A == IF e.k.gen THEN LSState(e) ELSE SysMat(e) IN
                                        MClose(L[1], A, 0, NMul("1e-5", NMax2("1e-9", MMaxAbs(A)))) /\ NLe(MMaxAbs(L[2]), NMul("1e-5", NMax2("1e-9", MMaxAbs(A)))), "diagonalization")))
\* ------------------------------------------------------------ prediction
Discrete(k) == k.cls # "affine"
SpacingOk(e, ts) == Discrete(e.k) => \A i \in 1..(Len(ts) - 1) : ts[i + 1] - ts[i] = e.dt
UTimes(U) == LET id == U.idx[1][1] IN TimesOf(SerOf(Rows(U), id))
USameTimes(U) == \A id \in IdsOf(Rows(U)) : TimesOf(SerOf(Rows(U), id)) = UTimes(U)
\* reference time of the initial conditions
HasU(e) == e.U.typ \in {"tsc", "np"}
Ref(e) == IF e.X.typ = "tsc" THEN e.X.idx[Len(e.X.idx)][2] ELSE IF e.U.typ = "tsc" THEN e.U.idx[1][2] ELSE IF e.tv # <<>> THEN e.tv[1] ELSE 0
\* times covered by the control input
CTimes(e) == LET u == IF e.U.typ = "tsc" THEN UTimes(e.U) ELSE [i \in 1..Len(e.U.vals) |-> Ref(e) + (i - 1) * e.dt] IN
             IF Discrete(e.k) THEN u \o <<u[Len(u)] + e.dt>> ELSE u
WantTimes(e) ==
    IF Controlled(e.k) THEN CTimes(e)
    ELSE IF e.tv = <<>> THEN <<Ref(e), Ref(e) + e.dt>>
    ELSE IF e.tv[1] = Ref(e) THEN e.tv ELSE <<Ref(e)>> \o e.tv
WantIds(e) == IF e.X.typ = "tsc" THEN IdSeq(e.X) ELSE IF e.U.typ = "tsc" THEN IdSeq(e.U) ELSE [i \in DOMAIN e.X.vals |-> i - 1]
PredictOk(e) ==
    /\ e.X.typ \in {"tsc", "np"} /\ FinF(e.X)
    /\ \A i \in DOMAIN e.X.vals : Len(e.X.vals[i]) = Len(e.fin)
    /\ (e.X.typ = "tsc" => /\ e.X.cols = e.fin
                           /\ \A i \in DOMAIN e.X.idx : e.X.idx[i][2] = e.X.idx[1][2]      \* one sample per series, one reference time
                           /\ NoDup(e.X.idx))
    /\ Asc(e.tv) /\ (\A i \in DOMAIN e.tv : e.tv[i] >= 0) /\ (\A i \in DOMAIN e.tv : e.tv[i] >= Ref(e))
    /\ IF Controlled(e.k)
       THEN /\ HasU(e) /\ FinF(e.U)
            /\ (e.U.typ = "tsc" => e.U.cols = e.uin /\ USameTimes(e.U) /\ NoDup(e.U.idx))
            /\ (e.U.typ = "np" => Len(e.X.vals) = 1 /\ \A i \in DOMAIN e.U.vals : Len(e.U.vals[i]) = Len(e.uin))
            /\ (e.X.typ = "tsc" /\ e.U.typ = "tsc" => IdsOf(Rows(e.U)) = IdsOf(Rows(e.X)))
            /\ (e.X.typ = "np" /\ e.U.typ = "tsc" => Len(IdSeq(e.U)) = Len(e.X.vals))
            /\ CTimes(e)[1] = Ref(e)
            /\ SpacingOk(e, CTimes(e))
            /\ (e.tv # <<>> => e.tv = CTimes(e))
       ELSE ~HasU(e)
\* admissible in principle, but the library may also refuse it
PredictMay(e) ==
    \/ Controlled(e.k) /\ e.U.typ = "tsc" /\ e.X.typ = "tsc" /\ IdSeq(e.U) # IdSeq(e.X)
    \/ Controlled(e.k) /\ e.U.typ = "np" /\ e.tv = <<>> /\ e.X.typ = "np" /\ Ref(e) # 0
    \/ e.k.cls = "affine" /\ (e.U.typ = "np" \/ Len(CTimes(e)) < 4)
URows(e, id) == IF e.U.typ = "np" THEN e.U.vals ELSE [i \in DOMAIN UTimes(e.U) |-> URow(e.U, id, UTimes(e.U)[i])]
RealT(e, d) == NMul(d, e.unit)      \* ticks to time units
FullA(e) == IF e.k.mode = "spectral" /\ Controlled(e.k) THEN Recomposed(e) ELSE e.m.A
TrajP(e, x, id, ts) ==
    LET st(q) ==
          LET d == ts[q] - ts[1] IN
          IF e.k.typ = "flowmap"
          THEN IF e.k.mode = "matrix" /\ d % e.dt = 0 THEN MVec(MPow(e.m.A, d \div e.dt), x) ELSE SpecFlowAt(e.m.V, e.m.ev, x, NDiv(d, e.dt))
          ELSE IF e.k.mode = "matrix" THEN MVec(MExp(MScale(RealT(e, d), e.m.A)), x) ELSE SpecGenAt(e.m.V, e.m.ev, x, RealT(e, d))
    IN CASE e.k.cls = "ctrl" -> StepsFrom(FullA(e), e.m.B, x, URows(e, id))
         [] e.k.cls = "affine" -> AffineFrom(e.m.A, e.m.N, [q \in DOMAIN ts |-> RealT(e, ts[q] - ts[1])], URows(e, id), x, 1)
         [] OTHER -> [q \in DOMAIN ts |-> st(q)]
OutOf(e, v) == IF e.post = <<>> THEN v ELSE IF e.postb = <<>> THEN MVec(e.post, v) ELSE VAdd(MVec(e.post, v), e.postb)
\* the result R holds, for every id, exactly the times ts (contiguous, ascending), and no other series
CoversIds(R, ids, ts(_)) ==
    /\ Range1(IdSeq(R)) = Range1(ids) /\ Contiguous(Rows(R))
    /\ \A id \in Range1(ids) : TimesOf(SerOf(Rows(R), id)) = ts(id)
InitRow(e, id) == IF e.X.typ = "tsc" THEN e.X.vals[CHOOSE i \in DOMAIN e.X.idx : e.X.idx[i][1] = id] ELSE e.X.vals[CHOOSE i \in DOMAIN WantIds(e) : WantIds(e)[i] = id]
SerVals(R, id) == LET s == SerOf(Rows(R), id) IN [i \in DOMAIN s |-> s[i][3]]
\* the initial state is reproduced if it lies in the span of the modes
PredictClauses(e) ==
    E1(e.pre = e.after, "arguments_changed") \cup E1(e.st0 = e.st1, "model_changed") \cup
    (IF ~PredictOk(e) THEN E1(Rejected(e), "inadmissible_input_accepted")
     ELSE IF e.err # "" THEN (IF PredictMay(e) THEN {} ELSE {"predict_failed"})
     ELSE LET ts == WantTimes(e) ids == WantIds(e) IN
          E1(e.R.typ = "tsc", "result_type")
          \cup E1(e.R.cols = (IF e.outcols # <<>> THEN e.outcols ELSE e.fin), "result_names")
          \cup (IF ~CoversIds(e.R, ids, LAMBDA id : ts) THEN {"result_index"}
                ELSE IF e.novals THEN {}
                ELSE E1(\A id \in Range1(ids) :
                          LET W == TrajP(e, InitRow(e, id), id, ts) O == SerVals(e.R, id) mx == NMax2("1e-6", MMaxAbs(W)) IN
                          \A q \in DOMAIN ts : VClose(O[q], OutOf(e, W[q]), 0, NMul(e.tol, mx)), "trajectory")))
\* ------------------------------------------------------------ reconstruction
\* every series of X from its own first state, at its own times
ReconOk(e) == e.X.typ = "tsc" /\ FinF(e.X) /\ e.X.cols = e.fin /\ Regular(e.X)
              /\ (Controlled(e.k) => /\ e.U.typ = "tsc" /\ e.U.cols = e.uin /\ FinF(e.U) /\ IdxSet(e.U) = ControlIdx(e.k, e.X) /\ TickStep(e.X) = e.dt)
ReconMay(e) == Controlled(e.k) /\ (IdSeq(e.U) # IdSeq(e.X) \/ (e.k.cls = "affine" /\ \E id \in IdsOf(Rows(e.X)) : Len(SerOf(Rows(e.X), id)) < 4))
SeriesTraj(e, id) ==
    LET s == SerOf(Rows(e.X), id) ts == TimesOf(s) IN TrajP([e EXCEPT !.U = [e.U EXCEPT !.idx = SelectSeq(e.U.idx, LAMBDA r : r[1] = id),
                                                  !.vals = LET p == SelectSeq([i \in DOMAIN e.U.idx |-> i], LAMBDA i : e.U.idx[i][1] = id) IN [j \in DOMAIN p |-> e.U.vals[p[j]]]]], s[1][3], id, ts)
ReconClauses(e) ==
    E1(e.pre = e.after, "arguments_changed") \cup E1(e.st0 = e.st1, "model_changed") \cup
    (IF ~ReconOk(e) THEN (IF ~FinF(e.X) \/ e.X.cols # e.fin \/ ~Regular(e.X) \/ Controlled(e.k) THEN E1(Rejected(e), "inadmissible_input_accepted") ELSE {})
     ELSE IF e.err # "" THEN (IF ReconMay(e) THEN {} ELSE {"reconstruct_failed"})
     ELSE E1(e.R.typ = "tsc" /\ e.R.cols = e.fin, "result_names")
          \cup (IF ~CoversIds(e.R, IdSeq(e.X), LAMBDA id : TimesOf(SerOf(Rows(e.X), id))) THEN {"reconstruction_index"}
                ELSE IF e.novals THEN {}
                ELSE E1(\A id \in IdsOf(Rows(e.X)) :
                         LET W == SeriesTraj(e, id) O == SerVals(e.R, id) mx == NMax2("1e-6", MMaxAbs(W)) IN
                         \A q \in DOMAIN W : VClose(O[q], W[q], 0, NMul(e.tol, mx)), "reconstruction_values")))
\* groups of initial conditions: e.groups = <<[X |-> frame, tv |-> times]>>
IterClauses(e) ==
    LET R == Rows(e.X) ids == IdsOf(R) short == \E id \in ids : Len(SerOf(R, id)) < e.n
        const == \A id \in ids : \A i \in 1..(Len(SerOf(R, id)) - 2) : LET s == SerOf(R, id) IN s[i + 1][2] - s[i][2] = s[i + 2][2] - s[i + 1][2]
        gids == Flat([g \in DOMAIN e.groups |-> IdSeq(e.groups[g].X)])
    IN E1(e.pre = e.after, "arguments_changed") \cup
       (IF short \/ ~const THEN E1(Rejected(e), "inadmissible_input_accepted")
        ELSE IF e.err # "" THEN (IF \E id \in ids : Len(SerOf(R, id)) < 2 THEN {} ELSE {"iteration_failed"})
        ELSE E1(NoDup(gids) /\ Range1(gids) = ids, "each_series_once")
             \cup E1(\A g \in DOMAIN e.groups : LET G == e.groups[g] IN
                     /\ G.X.typ = "tsc" /\ G.X.cols = e.X.cols
                     /\ \A id \in IdsOf(Rows(G.X)) \cap ids : SerOf(Rows(G.X), id) = SubSeq(SerOf(R, id), 1, e.n), "initial_states")
             \cup E1(\A g \in DOMAIN e.groups : \A id \in IdsOf(Rows(e.groups[g].X)) \cap ids :
                     LET s == SerOf(R, id) IN e.groups[g].tv = TimesOf(SubSeq(s, e.n, Len(s))), "group_times"))
Clauses(e) ==
    CASE e.op = "fit" -> FitClauses(e)
      [] e.op = "predict" -> PredictClauses(e)
      [] e.op = "recon" -> ReconClauses(e)
      [] e.op = "iter" -> IterClauses(e)
      [] e.op = "reject" -> E1(Rejected(e), "inadmissible_input_accepted")
      [] e.op = "crash" -> {"crash:" \o e.err}
      [] OTHER -> {}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ \A c \in Clauses(Trace[l]) : PrintT(<<"VIO", l, c>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
