------------------------------- MODULE T_COL -------------------------------
(***************************************************************************)
(* Trace specification for collections (C01-C05): every recorded call must *)
(* be the corresponding action of ColOps on the store of collections.      *)
(***************************************************************************)
EXTENDS ColOps, Num, Json, IOUtils, Temporal

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

C0(p) == Coll(p.rows, p.cols, p.tk)
RejErr(e) == e.err # "" /\ e.err # "timeout"

\* ------------------------------------------------------------- queries (C03)
Collapsed(C, F(_)) == LET s == {F(id) : id \in IdSet(C)} IN Cardinality(s) = 1
PerMatches(o, C, F(_)) ==       \* scalar iff all series agree, else one entry per series under its ID
    IF Collapsed(C, F) THEN o.k = "scalar" /\ o.v = (CHOOSE x \in {F(id) : id \in IdSet(C)} : TRUE)
    ELSE o.k = "series" /\ Range1(o.m) = PerId(C, F) /\ Len(o.m) = Cardinality(IdSet(C))
BoolIs(o, b) == o.k = "bool" /\ o.b = b
Finite(C) == \A i \in DOMAIN C.rows : \A j \in DOMAIN C.rows[i][3] : C.rows[i][3][j] \notin {"nan", "inf", "-inf"}
DeltaKind(C) == IF Collapsed(C, LAMBDA id : Delta(C, id)) THEN "scalar" ELSE "series"

NormU(e, C) == ConstDelta(C) /\ MinTime(C) = 0 /\ TheDelta(C) = e.unit    \* e.unit: ticks of one time unit
CheckPass(e, C) ==       \* does the check_* call have to pass
    CASE e.q = "check_finite" -> Finite(C)
      [] e.q = "check_same_length" -> EqualLength(C)
      [] e.q = "check_const_time_delta" -> ConstDelta(C)
      [] e.q = "check_const_timesteps" -> EqualLength(C)
      [] e.q = "check_equal_timevalues" -> SameTimes(C)
      [] e.q = "check_contain_required_ids" -> Range1(e.ids) = IdSet(C) /\ Len(e.ids) = Cardinality(IdSet(C))
      [] e.q = "check_contain_required_ids_order" -> e.ids = AppIds(C.rows)
      [] e.q = "check_normalized_time" -> NormU(e, C)
      [] e.q = "check_required_time_delta" -> \A id \in IdSet(C) : Delta(C, id) = e.n
      [] e.q = "check_required_n_timeseries" -> Cardinality(IdSet(C)) = e.n
      [] e.q = "check_required_n_timesteps" -> \A id \in IdSet(C) : LenOf(C, id) = e.n
      [] e.q = "check_required_min_timesteps" -> \A id \in IdSet(C) : LenOf(C, id) >= e.n
      [] e.q = "check_no_degenerate_ts" -> DegenerateIds(C) = {}
      [] e.q = "check_non_overlapping_timeseries" -> NonOverlapping(C)
      [] e.q = "check_min_samples" -> NRows(C) >= e.n
      [] e.q = "check_min_features" -> Len(C.cols) >= e.n
      [] e.q = "check_tsc" ->
            /\ (e.o.finite => Finite(C))
            /\ (e.o.same_length => EqualLength(C))
            /\ (e.o.const_delta => ConstDelta(C))
            /\ (e.o.delta # NaN => \A id \in IdSet(C) : Delta(C, id) = e.o.delta)
            /\ (e.o.same_times => SameTimes(C))
            /\ (e.o.normalized => NormU(e, C))
            /\ (e.o.n_series # NaN => Cardinality(IdSet(C)) = e.o.n_series)
            /\ (e.o.n_steps # NaN => \A id \in IdSet(C) : LenOf(C, id) = e.o.n_steps)
            /\ (e.o.min_steps # NaN => \A id \in IdSet(C) : LenOf(C, id) >= e.o.min_steps)
            /\ (e.o.no_degenerate => DegenerateIds(C) = {})
            /\ NRows(C) >= e.o.min_samples /\ Len(C.cols) >= e.o.min_features
QueryClauses(e) ==
    LET C == st[e.h] o == e.out IN
    IF e.kind = "check" THEN
        IF CheckPass(e, C) THEN E1(e.err = "", "check_rejects_valid:" \o e.q)
        ELSE E1(RejErr(e), "check_accepts_invalid:" \o e.q)
    ELSE IF e.q = "const_sampled_time_values" /\ ~ConstDelta(C) THEN E1(RejErr(e), "query_accepts_invalid:" \o e.q)
    ELSE IF e.err # "" THEN {"query_fails:" \o e.q}
    ELSE E1(CASE e.q = "ids" -> o.k = "seq" /\ o.s = SortedIds(C)
              [] e.q = "n_timeseries" -> o.k = "scalar" /\ o.v = Cardinality(IdSet(C))
              [] e.q = "n_features" -> o.k = "scalar" /\ o.v = Len(C.cols)
              [] e.q = "n_timesteps" -> PerMatches(o, C, LAMBDA id : LenOf(C, id))
              [] e.q = "delta_time" -> PerMatches(o, C, LAMBDA id : Delta(C, id))
              [] e.q = "is_equal_length" -> BoolIs(o, EqualLength(C))
              [] e.q = "is_const_delta_time" -> BoolIs(o, ConstDelta(C))
              [] e.q = "is_same_time_values" -> BoolIs(o, SameTimes(C))
              [] e.q = "is_normalized_time" -> BoolIs(o, NormU(e, C))
              [] e.q = "is_finite" -> BoolIs(o, Finite(C))
              [] e.q = "is_datetime_index" -> BoolIs(o, C.tk = "d")
              [] e.q = "has_degenerate" -> BoolIs(o, DegenerateIds(C) # {})
              [] e.q = "degenerate_ids" -> o.k = "seq" /\ Range1(o.s) = DegenerateIds(C) /\ NoDup(o.s)
              [] e.q = "time_values" -> o.k = "seq" /\ o.s = SortedTimes(C)
              [] e.q = "time_interval" -> o.k = "seq" /\ o.s = <<MinTime(C), MaxTime(C)>>
              [] e.q = "time_interval_id" -> o.k = "seq" /\ o.s = <<FirstTime(C, e.n), LastTime(C, e.n)>>
              [] e.q = "const_sampled_time_values" -> o.k = "seq" /\ o.s = ConstSampled(C)
              [] e.q = "overview" -> o.k = "series" /\ Len(o.m) = Cardinality(IdSet(C))
                    /\ Range1(o.m) = {<<id, FirstTime(C, id), LastTime(C, id), Delta(C, id)>> : id \in IdSet(C)},
            "query_value:" \o e.q)

\* --------------------------------------------------------- collection results
\* sequential IDs in any order of the series
SeqIds(C, D) == /\ D.cols = C.cols /\ D.tk = C.tk /\ Samples(D) = Samples(C)
    /\ IdSet(D) = 0..(Cardinality(IdSet(C)) - 1)
    /\ \A i, j \in DOMAIN C.rows : (C.rows[i][1] = C.rows[j][1]) <=> (D.rows[i][1] = D.rows[j][1])
CollClauses(e) ==
    E1(e.out.type = "tsc", "result_type")
    \cup (IF e.out.type # "tsc" THEN {} ELSE
            E1(WellFormed(C0(e.out)), "result_well_formed")
            \cup E1(IF e.op = "assign_ids_sequential" THEN SeqIds(st[e.h], C0(e.out)) ELSE Same(e.out, Exp(e, st)), "result_content"))
WindowClauses(e) ==
    LET C == st[e.h]
        want == IF e.per THEN WindowsPer(C, SortedIds(C), e.w, e.o) ELSE WindowsOf(C, e.w, e.o)
    IN E1(Len(e.outs) = Len(want), "window_count")
       \cup E1(\A k \in DOMAIN e.outs : e.outs[k].type = "tsc" => WellFormed(C0(e.outs[k])), "result_well_formed")
       \cup (IF Len(e.outs) # Len(want) THEN {} ELSE
             E1(\A k \in DOMAIN want : e.outs[k].type = "tsc" /\ e.outs[k].rows = want[k].rows /\ e.outs[k].cols = want[k].cols, "window_content"))
SplitClauses(e) ==
    LET C == st[e.h] tr == {x + 1 : x \in Range1(e.train)} te == {x + 1 : x \in Range1(e.test)} IN
    E1(tr = {} \/ (e.outs[1].type = "tsc" /\ WellFormed(C0(e.outs[1])) /\ e.outs[1].cols = C.cols /\ PartitionOK(C, C0(e.outs[1]), tr)), "train_partition")
    \cup E1(te = {} \/ (e.outs[2].type = "tsc" /\ WellFormed(C0(e.outs[2])) /\ e.outs[2].cols = C.cols /\ PartitionOK(C, C0(e.outs[2]), te)), "test_partition")
    \cup E1(tr = {} \/ te = {} \/ IdsOf(e.outs[1].rows) \cap IdsOf(e.outs[2].rows) = {}, "train_test_share_id")
    \cup (IF e.dropped THEN E1(SameBag(Samples(e.outs[3]), [k \in 1..(NRows(C) - Cardinality(tr) - Cardinality(te)) |->
                Sample(C.rows[SetToSortSeq(DOMAIN C.rows \ (tr \cup te), <)[k]])]), "dropped_samples") ELSE {})
ConstDeltaClauses(e) ==
    LET C == st[e.h] D == C0(e.out) IN
    IF e.err # "" THEN
        E1(~(\A id \in IdSet(C) : Delta(C, id) # NaN), "rejected_regular_collection")
        \cup E1(~e.drop, "drop_samples_must_succeed")
    ELSE IF e.out.type = "none" THEN
        E1(e.drop /\ \A id \in IdSet(C) : Delta(C, id) = NaN, "dropped_everything")
    ELSE E1(e.out.type = "tsc" /\ WellFormed(D), "result_well_formed")
         \cup E1(IdSet(D) = 0..(Cardinality(IdSet(D)) - 1), "sequential_ids")
         \cup E1(SubSamples(Samples(D), Samples(C)), "samples_kept_once")
         \cup E1(e.drop \/ Len(D.rows) = Len(C.rows), "samples_lost")
         \cup E1(NoBridge(C, D), "series_bridges_gap")
         \cup E1(\A id \in IdSet(C) : Delta(C, id) # NaN =>
                    \E k \in IdSet(D) : Samples(SelIds(D, {k})) = Samples(SelIds(C, {id})), "regular_series_changed")
         \cup E1(e.warned \/ \A k \in IdSet(D) : Delta(D, k) # NaN, "result_irregular")
ArrClauses(e) ==
    LET C == st[e.h] IN
    CASE e.op = "feature_to_array" ->
            LET f == IF e.feature = "" THEN C.cols[1] ELSE e.feature
                ids == AppIds(C.rows)
                want == {<<ids[k], Column(SelIds(C, {ids[k]}), f)>> : k \in DOMAIN ids} IN
            IF e.frame THEN E1({<<e.rids[k], e.arr[k]>> : k \in DOMAIN e.arr} = want /\ e.times = SortedTimes(C) /\ Len(e.arr) = Len(ids), "array_content")
            ELSE E1(e.arr = [k \in DOMAIN ids |-> Column(SelIds(C, {ids[k]}), f)], "array_content")
      [] e.op = "itertimeseries" ->
            E1(Len(e.series) = Cardinality(IdSet(C)) /\
               {<<e.series[k][1], e.series[k][2]>> : k \in DOMAIN e.series} =
               {<<id, [k \in 1..LenOf(C, id) |-> <<Ser(C, id)[k][2], Ser(C, id)[k][3]>>]>> : id \in IdSet(C)}, "iterated_series")
      [] e.op = "xs" -> E1(e.arr = [k \in 1..LenOf(C, e.id) |-> <<Ser(C, e.id)[k][2], Ser(C, e.id)[k][3]>>], "cross_section")
      [] e.op = "shift_matrices" ->
            E1(e.left = [k \in DOMAIN LeftRows(C) |-> LeftRows(C)[k][3]] /\ e.right = [k \in DOMAIN RightRows(C) |-> RightRows(C)[k][3]], "snapshot_pairs")
      [] e.op = "equal_delta" ->
            LET D == st[e.h2] IN
            IF ConstDelta(C) /\ ConstDelta(D) /\ TheDelta(C) = TheDelta(D) THEN E1(e.err = "", "rejects_equal_delta")
            ELSE IF e.rc \/ PerId(C, LAMBDA id : Delta(C, id)) # PerId(D, LAMBDA id : Delta(D, id))
                 THEN IF Collapsed(C, LAMBDA id : Delta(C, id)) /\ Collapsed(D, LAMBDA id : Delta(D, id))
                         /\ ConstDelta(C) = ConstDelta(D) /\ ~ConstDelta(C) /\ ~e.rc THEN {}
                      ELSE E1(RejErr(e), "accepts_unequal_delta")
            ELSE {}

\* ----------------------------------------------- temporal operators with values (see Temporal)
TempClauses(e) ==
    LET C == st[e.h] ids == AppIds(C.rows) IN
    CASE e.op = "time_derivative" ->
            LET w == FDTable(e.scheme, e.order, e.acc)
                need == 1 - FDMin(w) + FDMax(w)
                want == CatBy(C, ids, LAMBDA s : FDSeries(s, w, e.spacing, e.order, e.shift)) IN
            IF ~ConstDelta(C) THEN E1(RejErr(e), "accepted_invalid_call")
            ELSE IF MinLen(C) < need THEN {}        \* a series too short: outside the documented use
            ELSE IF e.err # "" THEN {"rejected_valid_call"}
            ELSE E1(e.out.type = "tsc" /\ WellFormed(C0(e.out)) /\ e.out.cols = e.cols, "result_well_formed")
                 \cup E1(SeriesEq(e.out.rows, want, "1e-9", e.atol), "derivative_values")
      [] e.op = "takens" ->
            LET dl == DelayIdx(e.delays, e.lag, e.freq)
                want == CatBy(C, ids, LAMBDA s : TakSeries(s, dl, e.kappa)) IN
            IF ~ConstDelta(C) \/ MinLen(C) <= Max(Range1(dl)) THEN E1(RejErr(e), "accepted_invalid_call")
            ELSE IF e.err # "" THEN {"rejected_valid_call"}
            ELSE E1(e.out.type = "tsc" /\ WellFormed(C0(e.out)), "result_well_formed")
                 \cup E1(e.out.cols = TakNames(C.cols, dl), "delay_names")
                 \cup E1(SeriesEq(e.out.rows, want, "1e-12", "0"), "delay_values")
      [] e.op = "moving_average" ->
            LET want == CatBy(C, ids, LAMBDA s : MASeries(s, e.w)) IN
            IF ~ConstDelta(C) \/ MinLen(C) < e.w THEN {}
            ELSE IF e.err # "" THEN {"rejected_valid_call"}
            ELSE E1(e.out.type = "tsc" /\ WellFormed(C0(e.out)), "result_well_formed")
                 \cup E1(SeriesEq(e.out.rows, want, "1e-9", e.atol), "average_values")

\* --------------------------------------------------------- dispatch
Clauses(e) ==
    IF e.op = "case" THEN {}
    ELSE IF e.op = "crash" THEN {"crash:" \o e.err}
    ELSE
    (IF e.op = "q" THEN QueryClauses(e)
     ELSE IF e.op \in {"time_derivative", "takens", "moving_average"} THEN TempClauses(e)
     ELSE IF e.op = "equal_delta" THEN ArrClauses(e)
     ELSE IF e.op = "assign_ids_const_delta" THEN ConstDeltaClauses(e)
     ELSE IF Pre(e, st) = "rej" THEN E1(RejErr(e), "accepted_invalid_call")
     ELSE IF e.err # "" THEN (IF Pre(e, st) = "ok" THEN {"rejected_valid_call"} ELSE {})
     ELSE IF e.op = "windows" THEN WindowClauses(e)
     ELSE IF e.op = "assign_ids_train_test" THEN SplitClauses(e)
     ELSE IF e.op \in HasColl THEN CollClauses(e)
     ELSE ArrClauses(e))
    \cup UNION {LET h == p[1] D == p[2] IN
                IF e.op \in InPlace /\ e.err = "" /\ h = e.h
                THEN E1(Same(D, Exp(e, st)) \/ (e.op = "assign_ids_sequential" /\ SeqIds(st[h], D)) \/ (e.op \notin {"set_index", "set_columns", "loc.set", "col.set"} /\ Same(D, st[h])), "object_after_operation")
                ELSE E1(Same(D, st[h]), "operand_changed")
                : p \in Range1(e.post)}
    \cup E1(e.argsame, "argument_changed")

Step(e) ==
    IF e.op = "case" THEN <<>>
    ELSE LET a == [h \in DOMAIN st \cup {p[1] : p \in Range1(e.post)} |->
                    IF \E p \in Range1(e.post) : p[1] = h THEN C0((CHOOSE p \in Range1(e.post) : p[1] = h)[2]) ELSE st[h]]
         IN IF e.nh # 0 /\ e.err = "" THEN (e.nh :> C0(e.out)) @@ a ELSE a

Init == l = 1 /\ st = <<>>
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
        /\ \A c \in Clauses(e) : PrintT(<<"VIO", l, c>>)
        /\ st' = IF e.op = "crash" THEN st ELSE Step(e)
    /\ l' = l + 1
Spec == Init /\ [][Next]_vars
===========================================================================
