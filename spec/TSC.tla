------------------------------- MODULE TSC -------------------------------
(***************************************************************************)
(* Time series collections (datafold's TSCDataFrame) as a TLA+ data type.  *)
(*                                                                         *)
(* A collection is a record                                                *)
(*    rows : sequence of samples <<ID, time, values>>                      *)
(*    cols : sequence of feature names                                     *)
(*    tk   : kind of time value "i" (integer), "f" (float), "d" (datetime) *)
(* in the stored order.  Times are integers (multiples of the quantum the  *)
(* driver chose for the case), feature values are opaque tokens here.      *)
(* Every operator is a total function of its arguments; operations that    *)
(* the library rejects are described by separate ...OK predicates.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, FiniteSetsExt

NaN == -999999          \* "no value" among integers (irregular sampling)

RID(r) == r[1]
RT(r)  == r[2]
RV(r)  == r[3]

Range1(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Range1(s)) = Len(s)
Asc(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Coll(rows, cols, tk) == [rows |-> rows, cols |-> cols, tk |-> tk]
WithRows(C, rows) == [C EXCEPT !.rows = rows]
IdsOf(rows) == {rows[i][1] : i \in DOMAIN rows}
SerOf(rows, id) == SelectSeq(rows, LAMBDA r : r[1] = id)
TimesOf(rows) == [i \in DOMAIN rows |-> rows[i][2]]
IdSet(C) == IdsOf(C.rows)
SortedIds(C) == SetToSortSeq(IdSet(C), <)
\* IDs in order of appearance
RECURSIVE AppIds(_)
AppIds(rows) ==
    IF rows = <<>> THEN <<>>
    ELSE LET id == rows[1][1] IN <<id>> \o AppIds(SelectSeq(rows, LAMBDA r : r[1] # id))
Ser(C, id) == SerOf(C.rows, id)
TimeSet(C) == {C.rows[i][2] : i \in DOMAIN C.rows}
SortedTimes(C) == SetToSortSeq(TimeSet(C), <)
NRows(C) == Len(C.rows)

(***************************************************************************)
(* Well-formedness (C01)                                                   *)
(***************************************************************************)
Contiguous(rows) ==
    \A i, j \in DOMAIN rows : (i < j /\ rows[i][1] = rows[j][1]) =>
        \A k \in i..j : rows[k][1] = rows[i][1]
TimeSorted(rows) ==
    \A i \in 1..(Len(rows) - 1) : rows[i][1] = rows[i + 1][1] => rows[i][2] < rows[i + 1][2]
WellFormed(C) ==
    /\ \A i \in DOMAIN C.rows : C.rows[i][1] >= 0 /\ C.rows[i][2] >= 0
    /\ \A i \in DOMAIN C.rows : Len(C.rows[i][3]) = Len(C.cols)
    /\ Contiguous(C.rows)
    /\ TimeSorted(C.rows)
    /\ NoDup(C.cols)

(***************************************************************************)
(* Queries (C03)                                                           *)
(***************************************************************************)
LenOf(C, id) == Len(Ser(C, id))
Lens(C) == {LenOf(C, id) : id \in IdSet(C)}
DeltaOf(times) ==
    IF Len(times) < 2 THEN NaN
    ELSE LET d == times[2] - times[1]
         IN IF \A i \in 1..(Len(times) - 1) : times[i + 1] - times[i] = d THEN d ELSE NaN
Delta(C, id) == DeltaOf(TimesOf(Ser(C, id)))
Deltas(C) == {Delta(C, id) : id \in IdSet(C)}
EqualLength(C) == Cardinality(Lens(C)) = 1
ConstDelta(C) == Cardinality(Deltas(C)) = 1 /\ Deltas(C) # {NaN}
TheDelta(C) == CHOOSE d \in Deltas(C) : TRUE
SameTimes(C) == Cardinality({TimesOf(Ser(C, id)) : id \in IdSet(C)}) = 1
DegenerateIds(C) == {id \in IdSet(C) : LenOf(C, id) = 1}
MinTime(C) == Min(TimeSet(C))
MaxTime(C) == Max(TimeSet(C))
Normalized(C) == ConstDelta(C) /\ MinTime(C) = 0 /\ TheDelta(C) = 1
ConstSampled(C) ==
    LET d == TheDelta(C) n == (MaxTime(C) - MinTime(C)) \div d
    IN [i \in 1..(n + 1) |-> MinTime(C) + (i - 1) * d]
NonOverlapping(C) == \A t \in TimeSet(C) : Cardinality({i \in DOMAIN C.rows : C.rows[i][2] = t}) = 1
\* a value per series or one value for all (the library's collapsing rule)
PerId(C, F(_)) == {<<id, F(id)>> : id \in IdSet(C)}

(***************************************************************************)
(* Selection (C02)                                                         *)
(***************************************************************************)
SelTimes(C, T) == WithRows(C, SelectSeq(C.rows, LAMBDA r : r[2] \in T))
SelIds(C, S)   == WithRows(C, SelectSeq(C.rows, LAMBDA r : r[1] \in S))
\* blocks in the order of the sequence ids
RECURSIVE CatSeries(_, _)
CatSeries(rows, ids) == IF ids = <<>> THEN <<>> ELSE SerOf(rows, Head(ids)) \o CatSeries(rows, Tail(ids))
ColPos(C, c) == CHOOSE i \in DOMAIN C.cols : C.cols[i] = c
SelCols(C, cs) ==
    [C EXCEPT !.cols = cs,
              !.rows = [i \in DOMAIN C.rows |->
                          <<C.rows[i][1], C.rows[i][2], [j \in DOMAIN cs |-> C.rows[i][3][ColPos(C, cs[j])]]>>]]
Column(C, c) == [i \in DOMAIN C.rows |-> C.rows[i][3][ColPos(C, c)]]
Values(C) == [i \in DOMAIN C.rows |-> C.rows[i][3]]
Index(C) == [i \in DOMAIN C.rows |-> <<C.rows[i][1], C.rows[i][2]>>]
SliceRows(C, a, b) == WithRows(C, SubSeq(C.rows, a, b))
\* position of row i inside its series, and its distance from the end
PosIn(rows, i) == Cardinality({j \in 1..i : rows[j][1] = rows[i][1]})
FromEnd(rows, i) == Cardinality({j \in i..Len(rows) : rows[j][1] = rows[i][1]})
FilterIdx(rows, P(_)) ==
    LET keep == SelectSeq([i \in 1..Len(rows) |-> i], P) IN [k \in DOMAIN keep |-> rows[keep[k]]]
InitialStates(C, n) == WithRows(C, FilterIdx(C.rows, LAMBDA i : PosIn(C.rows, i) <= n))
FinalStates(C, n)   == WithRows(C, FilterIdx(C.rows, LAMBDA i : FromEnd(C.rows, i) <= n))
DropLast(C, n)      == WithRows(C, FilterIdx(C.rows, LAMBDA i : FromEnd(C.rows, i) > n))
MinLen(C) == Min(Lens(C))
Reindex(C, idx) == WithRows(C, [i \in DOMAIN C.rows |-> <<idx[i][1], idx[i][2], C.rows[i][3]>>])
WithValues(C, vals) == WithRows(C, [i \in DOMAIN C.rows |-> <<C.rows[i][1], C.rows[i][2], vals[i]>>])
SetCell(C, id, t, c, v) ==
    WithRows(C, [i \in DOMAIN C.rows |->
        IF C.rows[i][1] = id /\ C.rows[i][2] = t
        THEN <<id, t, [C.rows[i][3] EXCEPT ![ColPos(C, c)] = v]>> ELSE C.rows[i]])
MaxId(C) == Max(IdSet(C))
\* sort the rows of one series by time (used by constructors that sort)
SortRows(rows) == SortSeq(rows, LAMBDA a, b : IF a[1] = b[1] THEN a[2] < b[2] ELSE a[1] < b[1])

(***************************************************************************)
(* Constructors (C02)                                                      *)
(***************************************************************************)
\* tensor[k][j] = values of series k at time index j
FromTensor(tensor, ids, times, cols, tk) ==
    LET n == Len(ids) m == Len(times) IN
    Coll(SortRows([q \in 1..(n * m) |->
            LET k == ((q - 1) \div m) + 1 j == ((q - 1) % m) + 1 IN <<ids[k], times[j], tensor[k][j]>>]),
         cols, tk)
FromArray(arr, id, times, cols, tk) ==
    Coll(SortRows([i \in DOMAIN arr |-> <<id, times[i], arr[i]>>]), cols, tk)
\* frames: sequence of sequences <<time, values>>
RECURSIVE FromFrames(_, _)
FromFrames(frames, ids) ==
    IF frames = <<>> THEN <<>>
    ELSE [i \in DOMAIN Head(frames) |-> <<Head(ids), Head(frames)[i][1], Head(frames)[i][2]>>]
         \o FromFrames(Tail(frames), Tail(ids))
FromShift(left, right, times, cols, tk) ==
    Coll([q \in 1..(2 * Len(left)) |->
            LET k == (q + 1) \div 2 IN
            IF q % 2 = 1 THEN <<k - 1, times[1], left[k]>> ELSE <<k - 1, times[2], right[k]>>], cols, tk)

(***************************************************************************)
(* Re-partition, shift, trim (C04)                                         *)
(***************************************************************************)
MapIds(C, f) == WithRows(C, [i \in DOMAIN C.rows |-> <<f[C.rows[i][1]], C.rows[i][2], C.rows[i][3]>>])
MapTimes(C, F(_, _)) == WithRows(C, [i \in DOMAIN C.rows |-> <<C.rows[i][1], F(C.rows[i][1], C.rows[i][2]), C.rows[i][3]>>])
ShiftAll(C, d) == MapTimes(C, LAMBDA id, t : t + d)
ShiftPer(C, s) == MapTimes(C, LAMBDA id, t : t + s[id])
FirstTime(C, id) == Ser(C, id)[1][2]
LastTime(C, id) == Ser(C, id)[LenOf(C, id)][2]
Normalize(C) == LET m == MinTime(C) d == TheDelta(C) IN
    [MapTimes(C, LAMBDA id, t : (t - m) \div d) EXCEPT !.tk = "i"]
\* windows over a sorted time sequence: start positions (1-based)
WindowStarts(n, w, o) == SetToSortSeq({1 + k * o : k \in {j \in 0..n : 1 + j * o + w - 1 <= n}}, <)
WindowsOf(C, w, o) ==
    LET ts == SortedTimes(C) st == WindowStarts(Len(ts), w, o) IN
    [k \in DOMAIN st |-> SelTimes(C, {ts[i] : i \in st[k]..(st[k] + w - 1)})]
RECURSIVE WindowsPer(_, _, _, _)
WindowsPer(C, ids, w, o) ==
    IF ids = <<>> THEN <<>>
    ELSE WindowsOf(SelIds(C, {Head(ids)}), w, o) \o WindowsPer(C, Tail(ids), w, o)
\* maximal runs of positions of `keep` (a set of row positions) that are consecutive rows of one series
Runs(C, keep) ==
    {S \in {a..b : a, b \in DOMAIN C.rows} :
        /\ S # {} /\ S \subseteq keep
        /\ \A i \in S : C.rows[i][1] = C.rows[Min(S)][1]
        /\ ~ (Min(S) - 1 \in keep /\ C.rows[Min(S) - 1][1] = C.rows[Min(S)][1])
        /\ ~ (Max(S) + 1 \in keep /\ C.rows[Max(S) + 1][1] = C.rows[Min(S)][1])}
\* two samples are successors in one series of the collection
IsSucc(C, a, b) == \E i \in 1..(NRows(C) - 1) :
    /\ C.rows[i][1] = C.rows[i + 1][1]
    /\ C.rows[i] = a /\ C.rows[i + 1] = b
Sample(r) == <<r[2], r[3]>>     \* time and values, without the ID
\* every pair of neighbours of every series of D stems from neighbours of one series of C
NoBridge(C, D) ==
    \A i \in 1..(NRows(D) - 1) : D.rows[i][1] = D.rows[i + 1][1] =>
        \E k \in 1..(NRows(C) - 1) :
            /\ C.rows[k][1] = C.rows[k + 1][1]
            /\ Sample(C.rows[k]) = Sample(D.rows[i]) /\ Sample(C.rows[k + 1]) = Sample(D.rows[i + 1])
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
BagOf(s) == [x \in Range1(s) |-> Count(s, x)]
Samples(C) == [i \in DOMAIN C.rows |-> Sample(C.rows[i])]
SameBag(s, t) == Len(s) = Len(t) /\ BagOf(s) = BagOf(t)
SubSamples(s, t) == \A x \in Range1(s) : Count(s, x) <= Count(t, x)

(***************************************************************************)
(* Temporal operators (C05)                                                *)
(***************************************************************************)
\* snapshot pairs, series by series in stored order
LeftRows(C)  == FilterIdx(C.rows, LAMBDA i : i < Len(C.rows) /\ C.rows[i + 1][1] = C.rows[i][1])
RightRows(C) == FilterIdx(C.rows, LAMBDA i : i > 1 /\ C.rows[i - 1][1] = C.rows[i][1])
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* time-delay embedding: value block at delay position d (0 = now) of row i of a series
Takens(C, delays, names) ==
    LET rowsOf(id) == LET s == Ser(C, id) m == Max(Range1(delays)) IN
            [k \in 1..(Len(s) - m) |-> <<id, s[k + m][2], Flat([q \in DOMAIN delays |-> s[k + m - delays[q]][3]])>>]
        ids == AppIds(C.rows)
    IN Coll(Flat([q \in DOMAIN ids |-> rowsOf(ids[q])]), names, C.tk)
==========================================================================
