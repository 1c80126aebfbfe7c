------------------------------- MODULE MC_CV -------------------------------
(***************************************************************************)
(* Design model of the three split schemes: all small collections and all  *)
(* small parameters.  The windowed scheme is executed step by step (place  *)
(* the next window backwards), the result must equal the declarative       *)
(* definition WinFolds and satisfy leak-freeness.                          *)
(***************************************************************************)
EXTENDS CVOps, Json, CSV, IOUtils, TLC
CONSTANTS MaxSeries, MaxLen, EMIT
VARIABLES lay, par, folds, q, e, done
vars == <<lay, par, folds, q, e, done>>

Lays == UNION {[1..n -> 1..MaxLen] : n \in 1..MaxSeries}
RECURSIVE RowsFrom(_, _, _, _)
RowsFrom(L, k, t, same) == IF k > Len(L) THEN <<>> ELSE
    [i \in 1..L[k] |-> <<k - 1, t + i - 1, <<ToString(10 * k + i)>>>>] \o RowsFrom(L, k + 1, IF same THEN t ELSE t + L[k] + 1, same)
Col == Coll(RowsFrom(lay, 1, 0, par.s # "window"), <<"a">>, "i")
Init ==
    /\ lay \in Lays
    /\ par \in [s : {"window"}, w : 1..(MaxLen - 1), o : 0..2, m : 1..3, k : {0}] \cup [s : {"series", "time"}, w : {0}, o : {0}, m : {0}, k : 2..3]
    /\ folds = <<>> /\ q = Len(lay) /\ e = lay[Len(lay)] /\ done = FALSE
\* backwards pointer (series q, end position e)
Place ==
    /\ ~done /\ par.s = "window" /\ WinOK(Col, par.w)
    /\ IF e >= par.w
       THEN LET off == Min(PosOf(Col, q - 1)) - 1 te == (off + e - par.w + 1)..(off + e) tr == WinTrain(Col, te, par.m) IN
            /\ folds' = IF tr = {} THEN folds ELSE Append(folds, [tr |-> tr, te |-> te])
            /\ e' = e - par.w - par.o /\ UNCHANGED <<q, done>>
       ELSE IF q > 1 THEN q' = q - 1 /\ e' = lay[q - 1] /\ UNCHANGED <<folds, done>>
       ELSE done' = TRUE /\ UNCHANGED <<folds, q, e>>
    /\ UNCHANGED <<lay, par>>
\* k-fold: next block of units (series or time values), sizes n \div k or one more
Units == IF par.s = "series" THEN Len(lay) ELSE lay[1]
Size(i) == Units \div par.k + (IF i <= Units % par.k THEN 1 ELSE 0)
KFoldStep ==
    /\ ~done /\ par.s # "window" /\ (IF par.s = "series" THEN KSeriesOK(Col, par.k) ELSE KTimeOK(Col, par.k))
    /\ IF Len(folds) < par.k
       THEN LET i == Len(folds) + 1 n == IF folds = <<>> THEN 0 ELSE e
                blk == (n + 1)..(n + Size(i))
                te == {p \in AllPos(Col) : IF par.s = "series" THEN Col.rows[p][1] + 1 \in blk ELSE Col.rows[p][2] + 1 \in blk} IN
            folds' = Append(folds, [tr |-> AllPos(Col) \ te, te |-> te]) /\ e' = n + Size(i) /\ UNCHANGED <<q, done>>
       ELSE done' = TRUE /\ UNCHANGED <<folds, q, e>>
    /\ UNCHANGED <<lay, par>>
Next == Place \/ KFoldStep
Spec == Init /\ [][Next]_vars
SpecGen == Init /\ [][FALSE]_vars

LeakFree == \A k \in DOMAIN folds : folds[k].te # {} /\ folds[k].tr # {} /\ folds[k].tr \cap folds[k].te = {}
TestedAtMostOnce == \A i, k \in DOMAIN folds : i # k => folds[i].te \cap folds[k].te = {}
Complete == (done /\ par.s # "window") => Cover(Col, folds) /\ Len(folds) = par.k /\ Balanced([k \in DOMAIN folds |-> IdsIn(Col, folds[k].te)])
    /\ \A k \in DOMAIN folds : IF par.s = "series" THEN WholeSeries(Col, folds[k]) ELSE WholeTimes(Col, folds[k])
WindowsAsDefined == (done /\ par.s = "window") => folds = WinFolds(Col, par.w, par.o, par.m)
WindowInSeries == par.s = "window" => \A k \in DOMAIN folds : Cardinality(folds[k].te) = par.w /\ Cardinality(IdsIn(Col, folds[k].te)) = 1
PiecesLongEnough == par.s = "window" => \A k \in DOMAIN folds : \A S \in Runs(Col, folds[k].tr) : Cardinality(S) >= par.m
Emit == (EMIT /\ folds = <<>> /\ q = Len(lay) /\ e = lay[Len(lay)] /\ ~done) => CSVWrite("%1$s", <<ToJson([lay |-> lay, par |-> par])>>, IOEnv.BEH)
===========================================================================
