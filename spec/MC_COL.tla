------------------------------- MODULE MC_COL -------------------------------
(***************************************************************************)
(* Design model of collections: a store of small collections on which the  *)
(* actions of ColOps act.  Checked exhaustively (view without history) for *)
(* well-formedness, conservation laws and algebraic laws; simulated with   *)
(* history to generate behaviours that are replayed in the code.           *)
(***************************************************************************)
EXTENDS ColOps, Json, CSV, IOUtils
CONSTANTS D,        \* number of operations
          GEN,      \* TRUE: pick parameters at random (behaviour generation)
          OPS,      \* operations in use
          BIG       \* larger initial collections
VARIABLES st, hist
vars == <<st, hist>>
view == st

Pick(S) == IF GEN /\ S # {} THEN {RandomElement(S)} ELSE S
IdSeqs == IF BIG THEN {<<0>>, <<3>>, <<0, 1>>, <<2, 0>>, <<5, 1>>, <<1, 4>>, <<4, 0, 2>>, <<0, 1, 2>>, <<2, 1, 0>>}
          ELSE {<<0>>, <<2>>, <<1, 0>>, <<0, 3>>}
MAXLEN == IF BIG THEN 4 ELSE 2
Starts == IF BIG THEN {0, 1, 2} ELSE {0, 1}
Shapes == {s \in [start : Starts, len : 1..MAXLEN, d : {1, 2}] : s.len = 1 => s.d = 1}
ColsOf(n) == IF n = 1 THEN <<"a">> ELSE <<"a", "b">>
MkSeries(id, k, s, n) == [i \in 1..s.len |-> <<id, s.start + (i - 1) * s.d, [j \in 1..n |-> ToString(100 * k + 10 * i + j)]>>]
RECURSIVE MkRows(_, _, _, _)
MkRows(ids, shp, k, n) == IF ids = <<>> THEN <<>> ELSE MkSeries(Head(ids), k, Head(shp), n) \o MkRows(Tail(ids), Tail(shp), k + 1, n)
InitColls(x) == UNION {{Coll(MkRows(ids, shp, 1, n), ColsOf(n), "i") : shp \in [1..Len(ids) -> Shapes], n \in {1, 2}} : ids \in IdSeqs}
InitPick(x) == IF GEN THEN LET ids == RandomElement(IdSeqs) IN
                {Coll(MkRows(ids, RandomElement([1..Len(ids) -> Shapes]), 1, RandomElement({1, 2})), ColsOf(2), "i")}
            ELSE InitColls(x)
Ev0(C) == [op |-> "mk.raw", rows |-> C.rows, cols |-> C.cols, timetype |-> "i"]
Make == \E C0 \in InitPick(Len(hist)) :
            LET C == [C0 EXCEPT !.cols = ColsOf(Len(C0.rows[1][3]))] IN st' = <<C>> /\ hist' = <<Ev0(C)>>
Init == st = <<>> /\ hist = <<>>

H == DOMAIN st
Names == {"a", "b", "c"}
V(x) == ToString(900 + Len(hist) * 10 + x)
EventsOf(op, h) ==
    LET C == st[h] IN
    CASE op = "copy" -> {[op |-> op, h |-> h]}
      [] op = "select_time_values" -> {[op |-> op, h |-> h, times |-> SetToSortSeq(T, <)] : T \in Pick(SUBSET TimeSet(C) \ {{}})}
      [] op \in {"initial_states", "final_states"} -> {[op |-> op, h |-> h, n |-> n] : n \in Pick(0..3)}
      [] op = "ic.from_tsc" -> {[op |-> op, h |-> h, n |-> n] : n \in Pick(1..3)}
      [] op = "getcols" -> {[op |-> op, h |-> h, cols |-> cs] : cs \in Pick({s \in {<<"a">>, <<"b">>, <<"b", "a">>} : Range1(s) \subseteq Range1(C.cols)})}
      [] op = "loc.ids" -> {[op |-> op, h |-> h, ids |-> SetToSortSeq(S, <)] : S \in Pick(IF AppIds(C.rows) = SortedIds(C) THEN SUBSET IdSet(C) \ {{}} ELSE {})}
      [] op = "iloc.rows" -> {[op |-> op, h |-> h, a |-> ab[1], b |-> ab[2]] : ab \in Pick({x \in (DOMAIN C.rows) \X (DOMAIN C.rows) : x[1] <= x[2]})}
      [] op = "insert_ts" -> {[op |-> op, h |-> h, id |-> id, cols |-> C.cols, tk |-> "i",
                               frame |-> [i \in 1..n |-> <<i + 1, [j \in DOMAIN C.cols |-> V(i)]>>]] : id \in Pick({0, 1, 7}), n \in Pick({1, 2})}
      [] op = "concat" -> {[op |-> op, h |-> h, chs |-> <<h, g>>] : g \in Pick({g \in H : st[g].cols = C.cols /\ g # h})}
      [] op = "col.set" -> {[op |-> op, h |-> h, col |-> c, numeric |-> TRUE, vals |-> [i \in DOMAIN C.rows |-> V(i)]] : c \in Pick(Names)}
      [] op = "loc.set" -> {[op |-> op, h |-> h, id |-> C.rows[i][1], t |-> C.rows[i][2], col |-> C.cols[1], val |-> V(1), numeric |-> TRUE] : i \in Pick(DOMAIN C.rows)}
      [] op \in {"assign_ids_sequential", "normalize_time"} -> {[op |-> op, h |-> h]}
      [] op = "drop_last" -> {[op |-> op, h |-> h, n |-> n] : n \in Pick({n \in 1..3 : n > MinLen(C) \/ NRows(DropLast(C, n)) > 0})}
      [] op = "shift_delta" -> {[op |-> op, h |-> h, d |-> d] : d \in Pick({-1, 0, 2})}
      [] op = "shift_per" -> {[op |-> op, h |-> h, shift |-> s] : s \in Pick({<<>>} \cup {LET ids == SortedIds(C) IN [k \in DOMAIN ids |-> <<ids[k], f[k]>>] : f \in [1..Cardinality(IdSet(C)) -> {-1, 0, 3}]})}
      [] op = "fill_last" -> {[op |-> op, h |-> h, n |-> n] : n \in Pick(1..4)}
      [] op = "windows" -> {[op |-> op, h |-> h, w |-> w, o |-> o, per |-> p] : w \in Pick({1, 2, 3}), o \in Pick({1, 2}), p \in Pick(BOOLEAN)}
      [] op = "assign_ids_train_test" ->
            {[op |-> op, h |-> h, dropped |-> TRUE, train |-> [k \in 1..Cardinality(a) |-> SetToSortSeq(a, <)[k] - 1],
              test |-> [k \in 1..Cardinality(DOMAIN C.rows \ a) |-> SetToSortSeq(DOMAIN C.rows \ a, <)[k] - 1]]
             : a \in Pick(SUBSET (DOMAIN C.rows) \ {{}, DOMAIN C.rows})}
      [] op = "shift_matrices" -> {[op |-> op, h |-> h]}
NoResult == {"windows", "assign_ids_train_test", "shift_matrices"}

Do(e) ==
    /\ LET p == Pre(e, st) IN
        \/ /\ p = "rej" /\ UNCHANGED st
        \/ /\ p = "ok"
           /\ st' = IF e.op \in NoResult THEN st
                    ELSE IF e.op \in InPlace THEN [st EXCEPT ![e.h] = Exp(e, st)]
                    ELSE Append(st, Exp(e, st))
    /\ hist' = Append(hist, e)
Next == \/ hist = <<>> /\ Make
        \/ /\ hist # <<>> /\ Len(hist) <= D
           /\ \E op \in Pick(OPS) : \E h \in Pick(H) : \E e \in EventsOf(op, h) : Do(e)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ design properties
AllWellFormed == \A h \in H : WellFormed(st[h]) /\ NRows(st[h]) > 0
SelectionLaws == \A h \in H : LET C == st[h] IN
    /\ \A T \in SUBSET TimeSet(C) : SameBag(Index(SelTimes(C, T)) \o Index(SelTimes(C, TimeSet(C) \ T)), Index(C))
    /\ InitialStates(C, NRows(C)).rows = C.rows /\ FinalStates(C, NRows(C)).rows = C.rows
    /\ \A n \in 1..3 : SameBag(DropLast(C, n).rows \o FinalStates(C, n).rows, C.rows)
    /\ SelCols(C, C.cols) = C
ShiftLaws == \A h \in H : LET C == st[h] IN
    /\ ShiftAll(ShiftAll(C, 3), -3) = C
    /\ ConstDelta(C) /\ (\A i \in DOMAIN C.rows : (C.rows[i][2] - MinTime(C)) % TheDelta(C) = 0) =>
            Normalized(Normalize(C)) /\ Samples(C) = [i \in DOMAIN C.rows |-> <<MinTime(C) + TheDelta(C) * Normalize(C).rows[i][2], C.rows[i][3]>>]
PairLaws == \A h \in H : LET C == st[h] IN
    /\ Len(LeftRows(C)) = NRows(C) - Cardinality(IdSet(C)) /\ Len(RightRows(C)) = Len(LeftRows(C))
    /\ \A k \in DOMAIN LeftRows(C) : IsSucc(C, LeftRows(C)[k], RightRows(C)[k])
WindowLaws == \A h \in H : LET C == st[h] IN ConstDelta(C) =>
    \A w \in 1..3 : \A o \in 1..2 : \A k \in DOMAIN WindowsOf(C, w, o) :
        /\ Cardinality(TimeSet(WindowsOf(C, w, o)[k])) = w
        /\ Range1(WindowsOf(C, w, o)[k].rows) \subseteq Range1(C.rows)
QueryLaws == \A h \in H : LET C == st[h] IN
    /\ ConstDelta(C) => \A id \in IdSet(C) : Delta(C, id) = TheDelta(C)
    /\ SameTimes(C) => EqualLength(C)
    /\ (DegenerateIds(C) # {}) => ~ConstDelta(C)
    /\ Normalized(C) => MinTime(C) = 0
DelayLaws == \A h \in H : LET C == st[h] T == Takens(C, <<0, 1>>, C.cols \o C.cols) IN
    MinLen(C) >= 2 => NRows(T) = NRows(C) - Cardinality(IdSet(C)) /\
        \A i \in DOMAIN T.rows : \E k \in DOMAIN RightRows(C) : RightRows(C)[k][1] = T.rows[i][1] /\ RightRows(C)[k][2] = T.rows[i][2]
            /\ T.rows[i][3] = RightRows(C)[k][3] \o LeftRows(C)[k][3]
\* every operation that returns samples returns samples of its operand (values are not invented)
Emit == Len(hist) = D + 1 => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.BEH)
=============================================================================
