------------------------------ MODULE ColOps ------------------------------
(***************************************************************************)
(* The operations of a collection as actions on a store of collections:    *)
(* for each call event e and store st,                                     *)
(*    Pre(e, st)  "ok": must succeed, "rej": must be rejected, "any"       *)
(*    Exp(e, st)  the collection the call yields                           *)
(* The trace specification and the exhaustive design model both use them.  *)
(***************************************************************************)
EXTENDS TSC, TLC

Same(D, C) == D.rows = C.rows /\ D.cols = C.cols /\ D.tk = C.tk
E1(cond, name) == IF cond THEN {} ELSE {name}

\* ---------------------------------------------------------------- helpers
IsInt(x) == x # -888888
Frames(e) == e.frames           \* sequence of sequences <<t, values>>
FrameTimesOK(fr) == Asc([i \in DOMAIN fr |-> fr[i][1]]) /\ \A i \in DOMAIN fr : fr[i][1] >= 0
DistinctTimes(fr) == NoDup([i \in DOMAIN fr |-> fr[i][1]])
ValidRaw(e) ==      \* raw index/columns/values handed to the constructor
    /\ \A i \in DOMAIN e.rows : IsInt(e.rows[i][1]) /\ e.rows[i][1] >= 0 /\ e.rows[i][2] >= 0
    /\ e.numeric /\ e.levels = 2 /\ e.timetype \in {"i", "f", "d"}
    /\ NoDup([i \in DOMAIN e.rows |-> <<e.rows[i][1], e.rows[i][2]>>])
    /\ Contiguous(e.rows) /\ TimeSorted(e.rows) /\ NoDup(e.cols) /\ ~e.mixedcols

ConcatRows(cs) == Flat([k \in DOMAIN cs |-> cs[k].rows])

AugmentOK(C, U) == Index(U) = [i \in DOMAIN LeftRows(C) |-> <<LeftRows(C)[i][1], LeftRows(C)[i][2]>>]
                   /\ Range1(C.cols) \cap Range1(U.cols) = {}
Augment(C, U) ==
    [C EXCEPT !.cols = C.cols \o U.cols,
              !.rows = [i \in DOMAIN C.rows |->
                 LET first == i = 1 \/ C.rows[i - 1][1] # C.rows[i][1]
                     urow == IF first THEN [j \in DOMAIN U.cols |-> "nan"]
                             ELSE (CHOOSE r \in Range1(U.rows) : r[1] = C.rows[i - 1][1] /\ r[2] = C.rows[i - 1][2])[3]
                 IN <<C.rows[i][1], C.rows[i][2], C.rows[i][3] \o urow>>]]

\* IDs of the resulting series of a partition by `keep` runs: bijection runs -> IDs
PartitionOK(C, D, keep) ==
    LET runs == Runs(C, keep)
        bag(S) == [k \in 1..Cardinality(S) |-> Sample(C.rows[Min(S) + k - 1])]
        src == {bag(S) : S \in runs}
        got == {[k \in DOMAIN Ser(D, id) |-> Sample(Ser(D, id)[k])] : id \in IdSet(D)}
    IN /\ NRows(D) = Cardinality(keep)
       /\ got = src
       /\ [k \in DOMAIN D.rows |-> Sample(D.rows[k])] = [k \in 1..Cardinality(keep) |-> Sample(C.rows[SetToSortSeq(keep, <)[k]])]

\* ---------------------------------------------------------------- precondition
Pre(e, st) ==
    CASE e.op = "mk.raw" -> IF ValidRaw(e) THEN "ok" ELSE "rej"
      [] e.op = "mk.tensor" -> IF NoDup(e.ids) /\ Len(e.ids) = Len(e.tensor) /\ NoDup(e.times) /\ NoDup(e.cols)
                                  /\ (\A i \in DOMAIN e.ids : e.ids[i] >= 0)
                                  /\ (\A k \in DOMAIN e.times : e.times[k] >= 0) THEN "ok" ELSE "rej"
      [] e.op \in {"mk.array", "mk.single"} -> IF NoDup(e.times) /\ NoDup(e.cols) /\ (\A i \in DOMAIN e.times : e.times[i] >= 0) /\ e.id >= 0 THEN "ok" ELSE "rej"
      [] e.op = "mk.frames" -> IF NoDup(e.ids) /\ Len(e.ids) = Len(e.frames) /\ (\A k \in DOMAIN e.frames : FrameTimesOK(e.frames[k]))
                                   /\ (\A k \in DOMAIN e.ids : e.ids[k] >= 0) /\ e.samecols
                               THEN "ok" ELSE "rej"
      [] e.op = "mk.shift" -> IF e.times[1] < e.times[2] THEN "ok" ELSE "rej"
      [] e.op \in {"mk.ic", "mk.control"} -> "ok"
      [] e.op = "same_indices" -> "ok"
      [] e.op \in {"csv", "copy", "sort_index"} -> "ok"
      [] e.op = "ic.from_tsc" -> IF MinLen(st[e.h]) >= e.n
                                    /\ (e.n > 1 => ConstDelta(st[e.h]) /\ ConstDelta(InitialStates(st[e.h], e.n)))
                                    /\ SameTimes(InitialStates(st[e.h], e.n)) THEN "ok" ELSE "rej"
      [] e.op = "select_time_values" -> "ok"
      [] e.op \in {"initial_states", "final_states"} -> IF e.n >= 1 /\ MinLen(st[e.h]) >= e.n THEN "ok" ELSE "rej"
      [] e.op \in {"getcols", "loc.ids", "loc.cols", "iloc.rows"} -> "ok"
      [] e.op = "xs" -> "ok"
      [] e.op = "feature_to_array" -> IF SameTimes(st[e.h]) /\ (e.feature = "" => Len(st[e.h].cols) = 1) THEN "ok" ELSE "rej"
      [] e.op = "itertimeseries" -> "ok"
      [] e.op = "insert_ts" ->
            IF e.id \notin IdSet(st[e.h]) /\ e.id >= 0 /\ e.cols = st[e.h].cols /\ e.tk = st[e.h].tk /\ FrameTimesOK(e.frame)
            THEN "ok" ELSE "rej"
      [] e.op = "concat" ->
            IF WellFormed(Coll(ConcatRows([k \in DOMAIN e.chs |-> st[e.chs[k]]]), st[e.chs[1]].cols, "i")) THEN "ok" ELSE "rej"
      [] e.op = "set_index" -> IF ValidRaw(e) THEN "ok" ELSE "rej"
      [] e.op = "set_columns" -> IF NoDup(e.cols) /\ ~e.mixedcols /\ e.levels = 1 THEN "ok" ELSE "rej"
      [] e.op \in {"loc.set", "col.set"} -> IF e.numeric THEN "ok" ELSE "rej"
      \* C04
      [] e.op = "assign_ids_sequential" -> "ok"
      [] e.op = "assign_ids_const_delta" -> "any"
      [] e.op = "assign_ids_train_test" ->
            IF e.train = <<>> \/ e.test = <<>> THEN "any" ELSE IF Asc(e.train) /\ Asc(e.test) /\ Range1(e.train) \cap Range1(e.test) = {} THEN "ok" ELSE "rej"
      [] e.op = "windows" -> IF ConstDelta(st[e.h]) /\ e.w >= 1 /\ e.o >= 1 THEN "ok" ELSE "rej"
      [] e.op = "drop_last" -> IF MinLen(st[e.h]) >= e.n THEN "ok" ELSE "rej"
      [] e.op = "shift_delta" -> IF MinTime(st[e.h]) + e.d >= 0 THEN "ok" ELSE "rej"
      [] e.op = "shift_per" ->
            IF \A k \in DOMAIN e.shift : FirstTime(st[e.h], e.shift[k][1]) + e.shift[k][2] >= 0 THEN "ok" ELSE "rej"
      [] e.op = "normalize_time" -> IF ConstDelta(st[e.h]) THEN "ok" ELSE "rej"
      [] e.op = "expand" -> IF (\A id \in IdSet(st[e.h]) : Asc(<<LastTime(st[e.h], id)>> \o e.times)) /\ SameTimes(st[e.h]) THEN "ok" ELSE "any"
      [] e.op = "fill_last" -> IF Cardinality(IdSet(st[e.h])) = 1 /\ NRows(st[e.h]) < e.n /\ ConstDelta(st[e.h]) THEN "ok" ELSE "rej"
      [] e.op = "augment" -> IF AugmentOK(st[e.h], st[e.u]) THEN "ok" ELSE "rej"
      \* C05
      [] e.op = "shift_matrices" ->
            IF MinLen(st[e.h]) >= 2 /\ ConstDelta(st[e.h]) THEN "ok" ELSE "rej"
      [] OTHER -> "any"

\* ---------------------------------------------------------------- expected collection
ShiftFun(e, C) == IF e.shift = <<>> THEN [id \in IdSet(C) |-> -FirstTime(C, id)]
                  ELSE [id \in IdSet(C) |-> (CHOOSE p \in Range1(e.shift) : p[1] = id)[2]]
RECURSIVE ExpandRows(_, _, _)
ExpandRows(C, ids, e) ==
    IF ids = <<>> THEN <<>>
    ELSE Ser(C, Head(ids)) \o [k \in DOMAIN e.times |-> <<Head(ids), e.times[k], [j \in DOMAIN C.cols |-> e.fill]>>]
         \o ExpandRows(C, Tail(ids), e)
Exp(e, st) ==
    CASE e.op = "mk.raw" -> Coll(e.rows, e.cols, e.timetype)
      [] e.op = "mk.tensor" -> FromTensor(e.tensor, e.ids, e.times, e.cols, e.tk)
      [] e.op \in {"mk.array", "mk.single"} -> FromArray(e.arr, e.id, e.times, e.cols, e.tk)
      [] e.op = "mk.frames" -> Coll(FromFrames(e.frames, e.ids), e.cols, e.tk)
      [] e.op = "mk.shift" -> FromShift(e.left, e.right, e.times, e.cols, e.tk)
      [] e.op = "mk.ic" -> Coll([i \in DOMAIN e.arr |-> <<e.ids[i], e.time, e.arr[i]>>], e.cols, e.tk)
      [] e.op = "mk.control" -> Coll([i \in DOMAIN e.arr |-> <<e.id, e.times[i], e.arr[i]>>], e.cols, e.tk)
      [] e.op = "same_indices" -> [WithValues(st[e.h], e.vals) EXCEPT !.cols = e.cols]
      [] e.op \in {"csv", "copy"} -> st[e.h]
      [] e.op = "sort_index" -> WithRows(st[e.h], SortRows(st[e.h].rows))
      [] e.op = "select_time_values" -> SelTimes(st[e.h], Range1(e.times))
      [] e.op \in {"initial_states", "ic.from_tsc"} -> InitialStates(st[e.h], e.n)
      [] e.op = "final_states" -> FinalStates(st[e.h], e.n)
      [] e.op = "getcols" -> SelCols(st[e.h], e.cols)
      [] e.op = "loc.ids" -> SelIds(st[e.h], Range1(e.ids))
      [] e.op = "loc.cols" -> SelCols(SelIds(st[e.h], Range1(e.ids)), e.cols)
      [] e.op = "iloc.rows" -> SliceRows(st[e.h], e.a, e.b)
      [] e.op = "insert_ts" ->
            WithRows(st[e.h], st[e.h].rows \o [i \in DOMAIN e.frame |-> <<e.id, e.frame[i][1], e.frame[i][2]>>])
      [] e.op = "concat" -> WithRows(st[e.chs[1]], ConcatRows([k \in DOMAIN e.chs |-> st[e.chs[k]]]))
      [] e.op = "set_index" -> [Reindex(st[e.h], e.rows) EXCEPT !.tk = e.timetype]
      [] e.op = "set_columns" -> [st[e.h] EXCEPT !.cols = e.cols]
      [] e.op = "loc.set" -> SetCell(st[e.h], e.id, e.t, e.col, e.val)
      [] e.op = "col.set" ->
            LET C == st[e.h] IN
            IF e.col \in Range1(C.cols)
            THEN WithRows(C, [i \in DOMAIN C.rows |-> <<C.rows[i][1], C.rows[i][2], [C.rows[i][3] EXCEPT ![ColPos(C, e.col)] = e.vals[i]]>>])
            ELSE [C EXCEPT !.cols = Append(C.cols, e.col),
                           !.rows = [i \in DOMAIN C.rows |-> <<C.rows[i][1], C.rows[i][2], Append(C.rows[i][3], e.vals[i])>>]]
      [] e.op = "assign_ids_sequential" ->
            LET C == st[e.h] ids == SortedIds(C) IN
            MapIds(C, [id \in IdSet(C) |-> (CHOOSE k \in DOMAIN ids : ids[k] = id) - 1])
      [] e.op = "drop_last" -> DropLast(st[e.h], e.n)
      [] e.op = "shift_delta" -> ShiftAll(st[e.h], e.d)
      [] e.op = "shift_per" -> ShiftPer(st[e.h], ShiftFun(e, st[e.h]))
      [] e.op = "normalize_time" -> Normalize(st[e.h])
      [] e.op = "expand" -> WithRows(st[e.h], ExpandRows(st[e.h], AppIds(st[e.h].rows), e))
      [] e.op = "fill_last" ->
            LET C == st[e.h] d == TheDelta(C) n == NRows(C) r == C.rows[n] IN
            WithRows(C, C.rows \o [k \in 1..(e.n - n) |-> <<r[1], r[2] + k * d, r[3]>>])
      [] e.op = "augment" -> Augment(st[e.h], st[e.u])
      [] OTHER -> st[e.h]

\* operations that are (documented or known to be) in place: the object itself becomes the result
InPlace == {"set_index", "set_columns", "loc.set", "col.set", "assign_ids_sequential",
            "shift_delta", "shift_per", "normalize_time"}
HasColl == {"mk.raw", "mk.tensor", "mk.array", "mk.single", "mk.frames", "mk.shift", "mk.ic", "mk.control",
            "same_indices", "csv", "copy", "sort_index", "select_time_values", "initial_states", "final_states",
            "ic.from_tsc", "getcols", "loc.ids", "loc.cols", "iloc.rows", "insert_ts", "concat", "set_index",
            "set_columns", "loc.set", "col.set", "assign_ids_sequential", "drop_last", "shift_delta", "shift_per",
            "normalize_time", "expand", "fill_last", "augment"}
===========================================================================
