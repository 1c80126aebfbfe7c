------------------------------- MODULE T_EDM -------------------------------
(***************************************************************************)
(* Trace specification of EDMD models (M06, M07): the model is the         *)
(* composition of the dictionary (Trf), the linear model in dictionary     *)
(* coordinates (T_DMD, T_STR) and the linear map back to the states.       *)
(*  dk: dictionary pipeline record   ek: [attach, pres, stepwise, tinv,    *)
(*  sort]   D: fit data   B, b: the observed map back, v -> B'v + b        *)
(***************************************************************************)
EXTENDS T_STR, Trf
TscF(F) == F.typ = "tsc"
Dict(e, X) == Out(e.dk, e.D, X)
AllIn(cs, ds) == Range1(cs) \subseteq Range1(ds)
Preserved(e, F) == CASE e.ek.pres = "infer" -> AllIn(e.D.cols, F.cols) [] e.ek.pres = "true" -> TRUE [] OTHER -> FALSE
RowAt(X, r) == X.vals[CHOOSE i \in DOMAIN X.idx : X.idx[i] = r]
\* dictionary of X, with the states attached if the model does so
Full(e, X) ==
    LET F == Dict(e, X) IN
    IF e.ek.attach /\ ~Preserved(e, F)
    THEN [X EXCEPT !.idx = F.idx, !.cols = X.cols \o F.cols, !.vals = [i \in DOMAIN F.idx |-> RowAt(X, F.idx[i]) \o F.vals[i]]]
    ELSE [X EXCEPT !.idx = F.idx, !.cols = F.cols, !.vals = F.vals]
Drop(F, keep) == LET p == SelectSeq([i \in DOMAIN F.idx |-> i], LAMBDA i : F.idx[i] \in keep) IN
                 [F EXCEPT !.idx = [j \in DOMAIN p |-> F.idx[p[j]]], !.vals = [j \in DOMAIN p |-> F.vals[p[j]]]]
RestrictTo(U, F) == IF TscF(U) THEN Drop(U, IdxSet(F)) ELSE U
Dropped(e) == LET F == Dict(e, e.D) id == e.D.idx[1][1] IN Len(SerPos(e.D, id)) - Len(SerPos(F, id))
\* ---------------------------------------------------------------- map back
RECURSIVE InvPipe(_, _, _)
\* fit data of the i-th step is the output of the steps before
InvPipe(subs, Ds, Y) ==
    IF subs = <<>> THEN Y.vals
    ELSE InvPipe(SubSeq(subs, 1, Len(subs) - 1), SubSeq(Ds, 1, Len(Ds) - 1), [Y EXCEPT !.vals = InvOut(subs[Len(subs)], Ds[Len(Ds)], Y)])
StepData(subs, D) == LET RECURSIVE P(_, _) P(i, A) == IF i > Len(subs) THEN <<>> ELSE <<A>> \o P(i + 1, Out(subs[i], A, A)) IN P(1, D)
Affine(e, Y) == [i \in DOMAIN Y |-> VAdd(MVec(MT(e.B), Y[i]), e.b)]
LSMap(e, F, keep) ==
    LET G == Drop(F, keep) X == [i \in DOMAIN G.idx |-> RowAt(e.D, G.idx[i])]
        H == MMul(MT(G.vals), G.vals) C == MMul(MT(G.vals), X) IN
    MClose(MMul(H, e.B), C, 0, NMul("1e-7", NMax2(NMul(NMul(Len(H), MMaxAbs(e.B)), MMaxAbs(H)), NMax2(MMaxAbs(C), "1e-12"))))
MapOk(e) ==
    LET F == Full(e, e.D) IN
    IF e.ek.tinv
    THEN LET Z == MEye(Len(F.cols)) \o <<[j \in DOMAIN F.cols |-> "0"]>> off == Len(F.cols) - Len(Dict(e, e.D).cols)      \* attached states are ignored
             W == InvPipe(e.dk.subs, StepData(e.dk.subs, e.D), [vals |-> [i \in DOMAIN Z |-> SubSeq(Z[i], off + 1, Len(F.cols))]]) IN
         MClose(Affine(e, Z), W, "1e-7", NMul("1e-8", NMax2(1, MMaxAbs(W))))
    ELSE /\ \A j \in DOMAIN e.b : NEq(e.b[j], 0)
         /\ IF e.ek.attach \/ Preserved(e, Dict(e, e.D))
            THEN MClose(e.B, [i \in DOMAIN F.cols |-> [j \in DOMAIN e.D.cols |-> IF F.cols[i] = e.D.cols[j] THEN 1 ELSE 0]], 0, "1e-12")
            ELSE LSMap(e, F, IdxSet(F)) \/ (Controlled(e.k) /\ LSMap(e, F, IdxSet(e.U)))
\* ---------------------------------------------------------------- fit
Triplets(e) ==     \* modes, eigenvalues and eigenfunctions of the fitted model
    LET F == Full(e, e.D) V == e.m.V BV == <<MMul(MT(e.B), V[1]), MMul(MT(e.B), V[2])>>
        xi(i) == <<[p \in DOMAIN V[1][1] |-> e.xi[i][p]], [p \in DOMAIN V[1][1] |-> e.xi[i][p + Len(V[1][1])]]>>
        n == Len(V[1][1])
    IN E1(CClose(e.modes, BV, 0, NMul("1e-9", NMax2(1, NMax2(MMaxAbs(BV[1]), MMaxAbs(BV[2]))))), "koopman_modes")
       \cup E1(e.kev = e.m.ev, "koopman_eigenvalues")
       \cup (IF ~e.wc THEN {}
             ELSE E1(Len(e.xi) = Len(F.idx) /\ \A i \in DOMAIN F.idx :
                      LET z == xi(i) re == VSub(MVec(V[1], z[1]), MVec(V[2], z[2])) im == VAdd(MVec(V[2], z[1]), MVec(V[1], z[2])) IN
                      LET f == F.vals[CHOOSE j \in DOMAIN F.idx : F.idx[j] = e.xidx[i]] mx == NMax2("1e-6", NMaxAbs(f)) IN
                      VClose(re, f, 0, NMul("1e-6", mx)) /\ NLe(NMaxAbs(im), NMul("1e-6", mx)), "koopman_eigenfunctions")
                  \cup E1(e.ek.sort => LET first == {i \in DOMAIN e.xidx : \A j \in DOMAIN e.xidx : e.xidx[j][1] = e.xidx[i][1] => e.xidx[i][2] <= e.xidx[j][2]}
                                           ord == SetToSortSeq(first, <)
                                           nrm(p) == NSqrt(NSum([j \in DOMAIN e.modes[1] |-> NAdd(NMul(e.modes[1][j][p], e.modes[1][j][p]), NMul(e.modes[2][j][p], e.modes[2][j][p]))]))
                                           ab(i, p) == NSqrt(NAdd(NMul(xi(i)[1][p], xi(i)[1][p]), NMul(xi(i)[2][p], xi(i)[2][p])))
                                           imp == [p \in 1..n |-> NMul(nrm(p), NSum([q \in DOMAIN ord |-> ab(ord[q], p)]))]
                                       IN \A p \in 1..(n - 1) : NLe(imp[p + 1], NAdd(imp[p], NMul("1e-7", NMaxAbs(imp)))), "sorted_triplets"))
EFitData(e) == LET F == Full(e, e.D) IN [e EXCEPT !.X = F, !.U = RestrictTo(e.U, F)]
EFitClauses(e) ==
    IF ~(TscF(e.D) /\ FinF(e.D) /\ Regular(e.D)) THEN E1(Rejected(e), "inadmissible_data_accepted")
    ELSE IF e.ek.pres = "true" /\ ~e.ek.tinv /\ ~AllIn(e.D.cols, Dict(e, e.D).cols) THEN E1(Rejected(e), "missing_states_accepted")
    ELSE IF (e.ek.attach /\ ~Preserved(e, Dict(e, e.D)) /\ ~NoDup(Full(e, e.D).cols)) \/ (e.ek.pres = "false" /\ AllIn(e.D.cols, Dict(e, e.D).cols)) THEN {}
    ELSE LET e2 == EFitData(e) IN
         FitClauses([e2 EXCEPT !.k.rank = 0])
         \cup (IF e.err # "" THEN {}
               ELSE E1(e.nic = Dropped(e) + 1, "samples_of_initial_condition")
                    \cup E1(e.efin = e.D.cols /\ e.eout = e2.X.cols /\ e.epred = e.D.cols, "edmd_names")
                    \cup E1(e.edt = TickStep(e.D), "edmd_sampling_interval")
                    \cup E1(e.ek.pres = "infer" => e.pf = Preserved(e, Dict(e, e.D)), "preserved_flag")
                    \cup E1(MapOk(e), "map_back")
                    \cup (IF e.modes = <<>> THEN {} ELSE Triplets(e)))
\* ---------------------------------------------------------------- transform and inverse
NpFrame(e, t0) == [e.X EXCEPT !.typ = "tsc", !.cols = e.efin, !.idx = [i \in DOMAIN e.X.vals |-> <<0, t0 + (i - 1) * e.dt>>]]
ETransClauses(e) ==
    E1(e.pre = e.after, "arguments_changed") \cup E1(e.st0 = e.st1, "model_changed") \cup
    (IF ~FinF(e.X) \/ (TscF(e.X) /\ e.X.cols # e.efin) \/ (\E i \in DOMAIN e.X.vals : Len(e.X.vals[i]) # Len(e.efin)) THEN E1(Rejected(e), "inadmissible_input_accepted")
     ELSE LET X == IF TscF(e.X) THEN e.X ELSE NpFrame(e, 0) IN
          IF \E id \in {X.idx[i][1] : i \in DOMAIN X.idx} : Len(SerPos(X, id)) < e.nic THEN {}
          ELSE IF e.err # "" THEN {"transform_failed"}
          ELSE LET W == Full(e, X) IN
               E1(e.R.typ = "tsc" /\ e.R.cols = W.cols, "dictionary_names")
               \cup E1(IF TscF(e.X) THEN ValsMatch(e.R, W, "1e-7", Tol(W)) ELSE MClose(e.R.vals, W.vals, "1e-7", Tol(W)), "dictionary_values"))
EInvClauses(e) ==
    IF e.err # "" THEN {"inverse_failed"}
    ELSE E1(e.R.cols = e.efin /\ e.R.idx = e.X.idx, "inverse_names")
         \cup E1(MClose(e.R.vals, Affine(e, e.X.vals), "1e-8", NMul("1e-8", NMax2(1, MMaxAbs(e.R.vals)))), "inverse_values")
\* ---------------------------------------------------------------- prediction
XSer(e) == IF TscF(e.X) THEN e.X ELSE [e.X EXCEPT !.typ = "tsc", !.cols = e.efin, !.idx = [i \in DOMAIN e.X.vals |-> <<WantIds(e)[i], Ref(e)>>]]
\* exactly the announced number of samples of each series, at equal times and with the sampling of the model
IcOk(e) ==
    /\ e.X.typ \in {"tsc", "np"} /\ FinF(e.X) /\ e.X.vals # <<>>
    /\ (TscF(e.X) => /\ e.X.cols = e.efin /\ NoDup(e.X.idx)
                     /\ LET R == Rows(e.X) t1 == TimesOf(SerOf(R, e.X.idx[1][1])) IN
                        /\ Len(t1) = e.nic /\ \A id \in IdsOf(R) : TimesOf(SerOf(R, id)) = t1
                        /\ \A i \in 1..(Len(t1) - 1) : t1[i + 1] - t1[i] = e.edt)
    /\ (e.X.typ = "np" => e.nic = 1 /\ (TscF(e.U) => Len(IdSeq(e.U)) = Len(e.X.vals)) /\ \A i \in DOMAIN e.X.vals : Len(e.X.vals[i]) = Len(e.efin))
QoisOk(e) == AllIn(e.qois, e.efin)
Post(e, cols) == [i \in DOMAIN cols |-> MCol(e.B, Pos(e.efin, cols[i]))]
PostB(e, cols) == [i \in DOMAIN cols |-> e.b[Pos(e.efin, cols[i])]]
OutNames(e) == IF e.qois = <<>> THEN e.efin ELSE e.R.cols
NamesOk(e) == e.err = "" /\ e.qois # <<>> => Range1(e.R.cols) = Range1(e.qois) /\ NoDup(e.R.cols)
Lin2(e, F, cols) == [e EXCEPT !.X = F, !.fin = F.cols, !.outcols = cols, !.post = Post(e, cols), !.postb = PostB(e, cols)]
\* one step at a time: map back and evaluate the dictionary again before every step
Lookback(h, n) == SubSeq(h, Len(h) - n + 1, Len(h))
StepwiseTraj(e, id, x0s, t0s, ts) ==
    LET RECURSIVE W(_, _, _)
        W(h, ht, q) ==
            IF q = Len(ts) THEN Lookback(h, Len(ts))
            ELSE LET cur == [e.D EXCEPT !.idx = [i \in 1..e.nic |-> <<id, ht[Len(ht) - e.nic + i]>>], !.vals = Lookback(h, e.nic)]
                     F == Full(e, cur)
                     one == [e EXCEPT !.U = IF TscF(e.U) THEN Drop(e.U, {<<id, ts[q]>>}) ELSE IF e.U.typ = "np" THEN [e.U EXCEPT !.vals = <<e.U.vals[q]>>] ELSE e.U]
                     v == TrajP(one, F.vals[1], id, <<ts[q], ts[q + 1]>>)[2]
                 IN W(Append(h, VAdd(MVec(MT(e.B), v), e.b)), Append(ht, ts[q + 1]), q + 1)
    IN W(x0s, t0s, 1)
Pick(e, cols, v) == [i \in DOMAIN cols |-> v[Pos(e.efin, cols[i])]]
EPredictClauses(e) ==
    E1(e.pre = e.after, "arguments_changed") \cup E1(e.st0 = e.st1, "model_changed") \cup
    (IF ~IcOk(e) \/ ~QoisOk(e) THEN E1(Rejected(e), "inadmissible_input_accepted")
     ELSE IF ~NamesOk(e) THEN {"quantities_of_interest"}
     ELSE LET X == XSer(e) F == Full(e, X) cols == IF e.err = "" THEN OutNames(e) ELSE e.efin e2 == Lin2(e, F, cols) IN
          IF ~e.ek.stepwise THEN PredictClauses([e2 EXCEPT !.pre = "", !.after = "", !.st0 = "", !.st1 = ""])
          ELSE PredictClauses([e2 EXCEPT !.pre = "", !.after = "", !.st0 = "", !.st1 = "", !.novals = TRUE])
               \cup (IF e.err # "" \/ e.novals \/ ~PredictOk(e2) \/ ~CoversIds(e.R, WantIds(e2), LAMBDA id : WantTimes(e2)) THEN {}
                     ELSE E1(\A id \in Range1(WantIds(e2)) :
                               LET s0 == SerOf(Rows(X), id)
                                   W == StepwiseTraj(e2, id, [i \in DOMAIN s0 |-> s0[i][3]], TimesOf(s0), WantTimes(e2)) O == SerVals(e.R, id) mx == NMax2("1e-6", MMaxAbs(W)) IN
                               \A q \in DOMAIN W : VClose(O[q], Pick(e, cols, W[q]), 0, NMul(e.tol, mx)), "stepwise_trajectory")))
\* ---------------------------------------------------------------- reconstruction
\* controls from the last sample of the initial condition on (discrete time: up to the last sample but one)
ECtrlOk(e, X) == LET need == ControlIdx(e.k, Full(e, X)) IN
    ~Controlled(e.k) \/ (TscF(e.U) /\ FinF(e.U) /\ e.U.cols = e.uin /\ NoDup(e.U.idx) /\ need \subseteq IdxSet(e.U))
\* more control than needed may be rejected
ECtrlMay(e, F) == Controlled(e.k) /\ (IdxSet(e.U) # ControlIdx(e.k, F) \/ (e.k.cls = "affine" /\ \E id \in IdsOf(Rows(F)) : Len(SerOf(Rows(F), id)) < 4))
UFor(e, F) == IF Controlled(e.k) THEN Drop(e.U, ControlIdx(e.k, F)) ELSE e.U
\* delay embeddings and time continuous control models with another sampling than that of the fit: not specified
OtherSpacing(e) == (e.nic > 1 \/ e.k.cls = "affine") /\ TickStep(e.X) # e.edt
EReconOk(e) ==
    /\ TscF(e.X) /\ FinF(e.X) /\ e.X.cols = e.efin /\ Regular(e.X) /\ QoisOk(e)
    /\ (e.k.cls = "ctrl" => TickStep(e.X) = e.edt)
    /\ \A id \in IdsOf(Rows(e.X)) : Len(SerOf(Rows(e.X), id)) > e.nic
    /\ ECtrlOk(e, e.X)
ReconVals(e, F, cols, seqs) ==     \* seqs: <<<<id in F, id of the result>>..>>
    \A q \in DOMAIN seqs :
        LET id == seqs[q][1] O == SerVals(e.R, seqs[q][2])
            s0 == SubSeq(SerOf(Rows(e.X), id), 1, e.nic)
            ts == TimesOf(SerOf(Rows(F), id))
            e2 == [e EXCEPT !.X = F, !.U = UFor(e, F)]
            W == IF e.ek.stepwise THEN StepwiseTraj(e2, id, [i \in DOMAIN s0 |-> s0[i][3]], TimesOf(s0), ts)
                 ELSE LET T == SeriesTraj(e2, id) IN [i \in DOMAIN T |-> VAdd(MVec(MT(e.B), T[i]), e.b)]
            mx == NMax2("1e-6", MMaxAbs(W))
        IN \A i \in DOMAIN W : VClose(O[i], Pick(e, cols, W[i]), 0, NMul(e.tol, mx))
EReconClauses(e) ==
    E1(e.pre = e.after, "arguments_changed") \cup E1(e.st0 = e.st1, "model_changed") \cup
    (IF ~EReconOk(e) THEN E1(Rejected(e), "inadmissible_input_accepted")
     ELSE IF OtherSpacing(e) THEN {}
     ELSE IF e.err # "" THEN (IF ECtrlMay(e, Full(e, e.X)) THEN {} ELSE {"reconstruct_failed"})
     ELSE IF ~NamesOk(e) THEN {"quantities_of_interest"}
     ELSE LET F == Full(e, e.X) cols == OutNames(e) ids == IdSeq(e.X) IN
          E1(e.R.typ = "tsc" /\ e.R.cols = cols, "result_names")
          \cup (IF ~CoversIds(e.R, ids, LAMBDA id : LET t == TimesOf(SerOf(Rows(e.X), id)) IN SubSeq(t, e.nic, Len(t))) THEN {"reconstruction_index"}
                ELSE IF e.novals THEN {}
                ELSE E1(ReconVals(e, F, cols, [q \in DOMAIN ids |-> <<ids[q], ids[q]>>]), "reconstruction_values")))
\* ---------------------------------------------------------------- windows
\* windows of `size` samples, the next starts `offset` samples later; per series, in order
Windows(e, ids) ==
    LET R == Rows(e.X) IN
    Flat([q \in DOMAIN ids |-> LET s1 == SerOf(R, ids[q]) n == IF Len(s1) < e.size THEN 0 ELSE (Len(s1) - e.size) \div e.offset + 1 IN
            [j \in 1..n |-> SubSeq(s1, (j - 1) * e.offset + 1, (j - 1) * e.offset + e.size)]])
Contig(F) == Contiguous(Rows(F))
EWindowOk(e) ==
    /\ TscF(e.X) /\ FinF(e.X) /\ e.X.cols = e.efin /\ Regular(e.X) /\ QoisOk(e) /\ e.size > e.nic
    /\ (e.k.cls = "ctrl" => TickStep(e.X) = e.edt)
    /\ \A id \in IdsOf(Rows(e.X)) : Len(SerOf(Rows(e.X), id)) >= e.size
    /\ (Controlled(e.k) => TscF(e.U) /\ FinF(e.U) /\ e.U.cols = e.uin /\ NoDup(e.U.idx))
\* windows as one collection, numbered in order
WColl(e, W) ==
    LET flat == Flat([j \in DOMAIN W |-> [i \in DOMAIN W[j] |-> <<j, W[j][i][2], W[j][i][3]>>]]) IN
    [e.X EXCEPT !.idx = [i \in DOMAIN flat |-> <<flat[i][1], flat[i][2]>>], !.vals = [i \in DOMAIN flat |-> flat[i][3]]]
\* control of the windows: from the last initial sample on
WCtrl(e, W) ==
    IF ~TscF(e.U) THEN e.U
    ELSE LET u == Flat([j \in DOMAIN W |-> LET v == SubSeq(W[j], e.nic, IF e.k.cls = "affine" THEN e.size ELSE e.size - 1)
                                               G == Drop(e.U, {<<v[i][1], v[i][2]>> : i \in DOMAIN v}) IN [i \in DOMAIN G.idx |-> <<j, G.idx[i][2], G.vals[i]>>]])
         IN [e.U EXCEPT !.idx = [i \in DOMAIN u |-> <<u[i][1], u[i][2]>>], !.vals = [i \in DOMAIN u |-> u[i][3]]]
WithWindows(e, W) == [e EXCEPT !.X = WColl(e, W), !.U = WCtrl(e, W)]
\* the result for windows in this order
WindowBad(e, W) ==
    LET rid == IdSeq(e.R) wid == IdSeq(e.W) e2 == WithWindows(e, W) F == Full(e2, e2.X) IN
    (IF ~(Contig(e.R) /\ Len(rid) = Len(W) /\ \A j \in DOMAIN W : TimesOf(SerOf(Rows(e.R), rid[j])) = SubSeq(TimesOf(W[j]), e.nic, e.size)) THEN {"window_index"}
     ELSE IF e.novals THEN {}
     ELSE E1(ReconVals(e2, F, OutNames(e), [j \in DOMAIN W |-> <<j, rid[j]>>]), "window_values"))
    \cup (IF e.W.typ = "none" THEN {}
          ELSE E1(e.W.cols = e.efin /\ Contig(e.W) /\ Len(wid) = Len(W)
                  /\ \A j \in DOMAIN W : LET v == SerOf(Rows(e.W), wid[j]) IN [i \in DOMAIN v |-> <<v[i][2], v[i][3]>>] = [i \in DOMAIN W[j] |-> <<W[j][i][2], W[j][i][3]>>], "returned_windows"))
EWindowClauses(e) ==
    E1(e.pre = e.after, "arguments_changed") \cup E1(e.st0 = e.st1, "model_changed") \cup
    (IF ~EWindowOk(e) THEN E1(Rejected(e), "inadmissible_input_accepted")
     ELSE IF OtherSpacing(e) THEN {}
     ELSE LET ids == IdSeq(e.X) srt == SetToSortSeq(Range1(ids), <) W == Windows(e, ids) e2 == WithWindows(e, W) IN
          IF ~ECtrlOk(e2, e2.X) THEN E1(Rejected(e), "inadmissible_input_accepted")
          ELSE IF e.err # "" THEN (IF ECtrlMay(e2, Full(e2, e2.X)) \/ (Controlled(e.k) /\ ~(ControlIdx(e.k, e.X) \subseteq IdxSet(e.U))) THEN {} ELSE {"window_reconstruct_failed"})
          ELSE IF ~NamesOk(e) THEN {"quantities_of_interest"}
          ELSE E1(e.R.typ = "tsc" /\ e.R.cols = OutNames(e), "result_names")
               \* the windows are taken series by series, in order of appearance or sorted
               \cup (LET bad == WindowBad(e, W) IN IF bad = {} \/ ids = srt THEN bad ELSE WindowBad(e, Windows(e, srt))))
\* ---------------------------------------------------------------- score
\* e.R: reconstruction, e.X: true values (windows), compared at the samples of the reconstruction
Mt == INSTANCE Metrics
EScoreClauses(e) ==
    E1(e.pre = e.after, "arguments_changed") \cup
    (IF e.err # "" THEN {"score_failed"}
     ELSE LET T == [i \in DOMAIN e.R.idx |-> RowAt(e.X, e.R.idx[i])]
              rm(j) == LET a == MCol(T, j) IN Mt!Raw("rmse", Mt!Scaled("min-max", a, a), Mt!Scaled("min-max", a, MCol(e.R.vals, j)), [i \in DOMAIN a |-> 1])
              v == [j \in DOMAIN e.R.cols |-> rm(j)]
              w == IF e.sw = <<>> THEN [j \in DOMAIN v |-> 1] ELSE e.sw
          IN E1(NClose(e.score, NNeg(Mt!WMean(v, w)), "1e-7", "1e-10"), "score_value"))
\* ---------------------------------------------------------------- incremental fit
EUpdClauses(t, e) ==
    IF ~(TscF(e.D) /\ FinF(e.D) /\ Regular(e.D)) \/ (~Fresh(t) /\ ~AllIn(e.D.cols, t.fin)) THEN E1(Rejected(e), "inadmissible_data_accepted")
    ELSE LET F == Full(e, e.D) e2 == [e EXCEPT !.X = F] IN
         IF e.err # "" /\ ~e.ek.attach /\ ~Preserved(e, Dict(e, e.D)) THEN {} ELSE    \* not supported
         UpdClauses(t, e2)
         \cup (IF e.err # "" THEN {}
               ELSE E1(e.nic = Dropped(e) + 1, "samples_of_initial_condition") \cup E1(e.efin = e.D.cols /\ e.eout = F.cols, "edmd_names")
                    \cup E1(MapOk(e), "map_back") \cup (IF e.modes = <<>> THEN {} ELSE E1(CClose(e.modes, <<MMul(MT(e.B), e.m.V[1]), MMul(MT(e.B), e.m.V[2])>>, 0, "1e-8"), "koopman_modes")))
ClausesE(t, e) ==
    CASE e.op = "efit" -> EFitClauses(e)
      [] e.op = "etrans" -> ETransClauses(e)
      [] e.op = "einv" -> EInvClauses(e)
      [] e.op = "epred" -> EPredictClauses(e)
      [] e.op = "erecon" -> EReconClauses(e)
      [] e.op = "ewin" -> EWindowClauses(e)
      [] e.op = "eupd" -> EUpdClauses(t, e)
      [] e.op = "escore" -> EScoreClauses(e)
      [] OTHER -> ClausesS(t, e)
NextE(t, e) ==
    CASE e.op = "eupd" -> IF e.err = "" THEN [After(t, [e EXCEPT !.X = Full(e, e.D)]) EXCEPT !.dig = e.dig] ELSE [t EXCEPT !.dig = e.dig]
      [] OTHER -> NextS(t, e)
StepE == /\ l <= Len(Trace)
         /\ \A c \in ClausesE(s, Trace[l]) : PrintT(<<"VIO", l, c>>)
         /\ s' = NextE(s, Trace[l])
         /\ l' = l + 1
SpecE == InitS /\ [][StepE]_vars
=============================================================================
