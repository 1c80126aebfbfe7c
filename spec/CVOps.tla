------------------------------- MODULE CVOps -------------------------------
(***************************************************************************)
(* Cross-validation splits of collections (V01).  A fold is a record       *)
(* [tr |-> set of row positions, te |-> set of row positions] (1-based).   *)
(***************************************************************************)
EXTENDS ColOps

PosOf(C, id) == {i \in DOMAIN C.rows : C.rows[i][1] = id}
PosAt(C, T) == {i \in DOMAIN C.rows : C.rows[i][2] \in T}
AllPos(C) == DOMAIN C.rows

\* ---- windowed scheme: windows from the end, last series first
RECURSIVE WinEnds(_, _, _)
WinEnds(n, w, o) == IF n < w THEN <<>> ELSE <<n>> \o WinEnds(n - w - o, w, o)    \* end positions inside a series
RECURSIVE WinTests(_, _, _, _)
WinTests(C, ids, w, o) ==
    IF ids = <<>> THEN <<>>
    ELSE LET id == ids[Len(ids)] p == PosOf(C, id) off == Min(p) - 1 ends == WinEnds(Cardinality(p), w, o)
         IN [k \in DOMAIN ends |-> (off + ends[k] - w + 1)..(off + ends[k])]
            \o WinTests(C, SubSeq(ids, 1, Len(ids) - 1), w, o)
\* train: everything outside the tested window in pieces of at least m samples
WinTrain(C, te, m) == UNION {S \in Runs(C, AllPos(C) \ te) : Cardinality(S) >= m}
WinFolds(C, w, o, m) ==
    SelectSeq([k \in 1..Len(WinTests(C, SortedIds(C), w, o)) |->
        LET te == WinTests(C, SortedIds(C), w, o)[k] IN [tr |-> WinTrain(C, te, m), te |-> te]], LAMBDA f : f.tr # {})
WinOK(C, w) == NonOverlapping(C) /\ ConstDelta(C) /\ \E id \in IdSet(C) : LenOf(C, id) >= w

\* ---- k-fold schemes
Balanced(sets) == \A a, b \in Range1(sets) : Cardinality(a) - Cardinality(b) \in {-1, 0, 1}
Cover(C, folds) ==
    /\ \A k \in DOMAIN folds : folds[k].te # {} /\ folds[k].tr = AllPos(C) \ folds[k].te
    /\ \A i \in AllPos(C) : Cardinality({k \in DOMAIN folds : i \in folds[k].te}) = 1
WholeSeries(C, f) == \A id \in IdSet(C) : PosOf(C, id) \subseteq f.te \/ PosOf(C, id) \cap f.te = {}
WholeTimes(C, f) == \A t \in TimeSet(C) : PosAt(C, {t}) \subseteq f.te \/ PosAt(C, {t}) \cap f.te = {}
IdsIn(C, S) == {C.rows[i][1] : i \in S}
TimesIn(C, S) == {C.rows[i][2] : i \in S}
\* without shuffling the folds are consecutive and in order
Ordered(C, folds, Key(_, _)) == \A k \in 1..(Len(folds) - 1) : \A a \in Key(C, folds[k].te), b \in Key(C, folds[k + 1].te) : a < b
KSeriesOK(C, k) == EqualLength(C) /\ k >= 2 /\ Cardinality(IdSet(C)) >= k
KTimeOK(C, k) == SameTimes(C) /\ k >= 2 /\ Cardinality(TimeSet(C)) >= k
===========================================================================
