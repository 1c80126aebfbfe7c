------------------------------- MODULE T_MET -------------------------------
(* Trace specification for error metrics and scores (V02). *)
EXTENDS Metrics, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E1(b, c) == IF b THEN {} ELSE {c}
RejErr(e) == e.err # "" /\ e.err # "timeout"
C0(p) == Coll(p.rows, p.cols, p.tk)
Fin(C) == \A i \in DOMAIN C.rows : \A j \in DOMAIN C.rows[i][3] : C.rows[i][3][j] \notin {"nan", "inf", "-inf"}
ColOf(C, j) == [i \in DOMAIN C.rows |-> C.rows[i][3][j]]
\* groups of row positions, in the order of the labels
Groups(C, mode) ==
    CASE mode = "timeseries" -> [k \in DOMAIN SortedIds(C) |-> SetToSortSeq({i \in DOMAIN C.rows : C.rows[i][1] = SortedIds(C)[k]}, <)]
      [] mode = "timestep" -> [k \in DOMAIN SortedTimes(C) |-> SetToSortSeq({i \in DOMAIN C.rows : C.rows[i][2] = SortedTimes(C)[k]}, <)]
      [] mode = "feature" -> << [i \in DOMAIN C.rows |-> i] >>
Labels(C, mode) == IF mode = "timeseries" THEN SortedIds(C) ELSE SortedTimes(C)
At(x, g) == [i \in DOMAIN g |-> x[g[i]]]
WeightsOK(C, e) == e.sw = <<>> \/
    CASE e.mode = "timeseries" -> EqualLength(C) /\ Len(e.sw) = CHOOSE n \in Lens(C) : TRUE
      [] e.mode = "timestep" -> SameTimes(C) /\ Len(e.sw) = Cardinality(IdSet(C))
      [] OTHER -> Len(e.sw) = NRows(C)
SameFrame(a, b) == Index(a) = Index(b) /\ a.cols = b.cols
\* all values: one row per label, one column per feature (raw) or one column
Values1(e) ==
    LET C == C0(e.yt) P == C0(e.yp) n == Len(C.cols)
        A == [j \in 1..n |-> Scaled(e.scaling, ColOf(C, j), ColOf(C, j))]
        B == [j \in 1..n |-> Scaled(e.scaling, ColOf(C, j), ColOf(P, j))]
        G == Groups(C, e.mode)
        W(g) == IF e.sw = <<>> THEN [i \in DOMAIN g |-> 1] ELSE e.sw
        raw == e.mode = "feature" \/ e.mo = "raw"
    IN [k \in DOMAIN G |->
          IF raw THEN [j \in 1..n |-> Raw(e.metric, At(A[j], G[k]), At(B[j], G[k]), W(G[k]))]
          ELSE << Reduced(e.metric, [j \in 1..n |-> At(A[j], G[k])], [j \in 1..n |-> At(B[j], G[k])], W(G[k]),
                          IF e.mo = "weights" THEN e.fw ELSE [j \in 1..n |-> 1]) >>]
AsSeries(e, V) == IF e.mode = "feature" THEN V[1] ELSE [k \in DOMAIN V |-> V[k][1]]
Supported(e) ==
    LET C == C0(e.yt) IN
    /\ ~(e.metric = "medae" /\ e.sw # <<>>)
    /\ ~(e.metric = "max" /\ (Len(C.cols) > 1 \/ e.sw # <<>>))
    /\ ~(e.mo = "weights" /\ Len(C.cols) = 1)
SameV(e) == SameFrame(C0(e.yt), C0(e.yp)) /\ Fin(C0(e.yt)) /\ Fin(C0(e.yp))
MetricClauses(e) ==
    LET C == C0(e.yt) IN
    IF ~SameV(e) THEN E1(RejErr(e), "accepted_different_frames")
    ELSE IF ~Supported(e) THEN {}
    ELSE IF ~WeightsOK(C, e) THEN E1(RejErr(e), "accepted_mismatching_weights")
    ELSE IF e.err # "" THEN {"rejected_valid_call"}
    ELSE LET V == Values1(e) IN
         E1(IF e.mode = "feature" THEN e.labels = C.cols ELSE e.labels = Labels(C, e.mode), "labels")
         \cup E1((e.mode # "feature" /\ e.mo = "raw" /\ Len(C.cols) > 1) => e.fcols = C.cols, "feature_columns")
         \cup E1(e.same => \A k \in DOMAIN e.vals : \A j \in DOMAIN e.vals[k] : NLe(NAbs(e.vals[k][j]), "1e-12"), "zero_for_identical_data")
         \cup E1(IF e.mode = "feature" THEN MClose(MT(e.vals), V, "1e-8", "1e-12") ELSE MClose(e.vals, V, "1e-8", "1e-12"), "metric_value")
ScoreClauses(e) ==
    LET C == C0(e.yt) IN
    IF ~SameV(e) THEN E1(RejErr(e), "accepted_different_frames")
    ELSE IF ~WeightsOK(C, e) \/ ~Supported(e) THEN {}
    ELSE IF e.err # "" THEN {"rejected_valid_call"}
    ELSE LET S == AsSeries(e, Values1(e))
             v == IF e.cw = <<>> THEN Mean(S) ELSE WMean(S, e.cw)
         IN E1(NClose(e.score, IF e.greater THEN v ELSE NNeg(v), "1e-8", "1e-12"), "score_value")
Clauses(e) ==
    CASE e.op = "case" -> {}
      [] e.op = "crash" -> {"crash:" \o e.err}
      [] e.op = "metric" -> MetricClauses(e) \cup E1(e.argsame, "argument_changed")
      [] e.op = "score" -> ScoreClauses(e) \cup E1(e.argsame, "argument_changed")
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ \A c \in Clauses(Trace[l]) : PrintT(<<"VIO", l, c>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
===========================================================================
