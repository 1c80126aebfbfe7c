------------------------------- MODULE T_DST -------------------------------
(***************************************************************************)
(* Trace specification of the distance matrices (K01).                     *)
(* An event is one call on an algorithm object; the result is a function   *)
(* of the points and the parameters of the object only, whatever the       *)
(* object computed before (s: the objects alive and their parameters).     *)
(*  k : [alg, metric, cut ("inf" | length in Euclidean sense), kmin, k]    *)
(*  X : reference points, Y : query points, pd : pair-wise (Y = X)         *)
(*  R : [typ: dense | sparse | none, shape, rows]                          *)
(*      rows[i] = sequence of stored <<column, value>>                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Num, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
E1(b, c) == IF b THEN {} ELSE {c}
Rejected(e) == e.err # "" /\ e.err # "timeout"
Dif(x, y) == [i \in DOMAIN x |-> NAbs(NSub(x[i], y[i]))]
DVal(m, x, y) ==
    LET d == Dif(x, y) IN
    CASE m = "euclidean" -> NSqrt(NDot(d, d))
      [] m = "sqeuclidean" -> NDot(d, d)
      [] m = "cityblock" -> NSum(d)
      [] m = "chebyshev" -> NMaxAbs(d)
FinP(P) == \A i \in DOMAIN P : \A j \in DOMAIN P[i] : P[i][j] \notin {"nan", "inf", "-inf"}
Q(e) == IF e.pd THEN e.X ELSE e.Y
DTable(e) == [i \in DOMAIN Q(e) |-> [j \in DOMAIN e.X |-> DVal(e.k.metric, Q(e)[i], e.X[j])]]
Cut(k) == IF k.cut = "inf" THEN "inf" ELSE IF k.metric = "sqeuclidean" THEN NMul(k.cut, k.cut) ELSE k.cut
Sparse(k) == k.k > 0 \/ k.cut # "inf"
\* admissible calls: at least two reference points, equal dimensions, as many neighbours as points
Dim(P) == {Len(P[i]) : i \in DOMAIN P}
Adm(e) == FinP(e.X) /\ FinP(e.Y) /\ Cardinality(Dim(e.X)) = 1 /\ (e.pd \/ Dim(e.Y) = Dim(e.X))
May(e) == (e.pd /\ e.k.k = 1) \/ Len(e.X) < 2 \/ e.k.kmin > Len(e.X) \/ e.k.k > Len(e.X) \/ (~e.pd /\ e.Y = <<>>)
Tol(e) == IF e.k.exact THEN "1e-12" ELSE "1e-6"
Scale(T) == NMax2("1e-300", NMaxAbs([i \in DOMAIN T |-> NMaxAbs(T[i])]))
\* the n-th smallest entry of a row
Nth(row, n) == CHOOSE v \in {row[j] : j \in DOMAIN row} :
    Cardinality({j \in DOMAIN row : NLt(row[j], v)}) < n /\ Cardinality({j \in DOMAIN row : NLe(row[j], v)}) >= n
Stored(R, i) == {R.rows[i][q][1] : q \in DOMAIN R.rows[i]}
ValAt(R, i, j) == R.rows[i][CHOOSE q \in DOMAIN R.rows[i] : R.rows[i][q][1] = j][2]
\* columns that must / may be stored in a row of a radius based matrix
Fz(c, eps) == NMul(c, NAdd(1, eps))
In(e, T, i) == {j \in DOMAIN T[i] : NLt(T[i][j], Fz(Cut(e.k), "-1e-9"))}         \* pairs at the cut-off itself: not specified
InMay(e, T, i) == {j \in DOMAIN T[i] : NLe(T[i][j], Fz(Cut(e.k), "1e-9"))}
Lacking(e, T, i) == e.k.kmin > 0 /\ Cardinality(In(e, T, i)) < e.k.kmin
NearMust(T, i, n) == {j \in DOMAIN T[i] : NLt(T[i][j], Fz(Nth(T[i], n), "-1e-12"))}
NearMay(T, i, n) == {j \in DOMAIN T[i] : NLe(T[i][j], Fz(Nth(T[i], n), "1e-12"))}
RadiusOk(e, T, R) ==
    \A i \in DOMAIN T :
        LET S == Stored(R, i) IN
        /\ In(e, T, i) \subseteq S
        /\ e.k.kmin > 0 => Cardinality(S) >= e.k.kmin
        /\ (Lacking(e, T, i) /\ Cardinality(InMay(e, T, i)) < e.k.kmin) => NearMust(T, i, e.k.kmin) \subseteq S
        /\ S \subseteq InMay(e, T, i) \cup (IF Lacking(e, T, i) THEN NearMay(T, i, e.k.kmin) ELSE {})
                       \cup (IF e.pd THEN {j \in DOMAIN T : Lacking(e, T, j) /\ i \in NearMay(T, j, e.k.kmin)} ELSE {})
KnnOk(e, T, R) ==
    \A i \in DOMAIN T : LET S == Stored(R, i) IN
        /\ Cardinality(S) = e.k.k /\ NearMust(T, i, e.k.k) \subseteq S /\ S \subseteq NearMay(T, i, e.k.k) \cup (IF e.pd THEN {i} ELSE {})
ResultOk(e) ==
    LET T == DTable(e) R == e.R m == Len(Q(e)) n == Len(e.X) tol == Tol(e) sc == Scale(T) IN
    IF R.shape # <<m, n>> THEN {"shape"}
    ELSE IF R.typ # (IF Sparse(e.k) THEN "sparse" ELSE "dense") THEN {"matrix_type"}
    ELSE E1(\A i \in 1..m : \A q \in DOMAIN R.rows[i] : NClose(R.rows[i][q][2], T[i][R.rows[i][q][1]], tol, NMul(tol, sc)), "distance_value")
         \cup E1(\A i \in 1..m : Len(R.rows[i]) = Cardinality(Stored(R, i)) /\ \A j \in Stored(R, i) : j \in 1..n, "stored_twice")
         \cup E1(\A i \in 1..m : \A q \in DOMAIN R.rows[i] : NLe(0, R.rows[i][q][2]), "negative_distance")
         \cup (IF ~Sparse(e.k) THEN E1(\A i \in 1..m : Len(R.rows[i]) = n, "missing_pairs")
               ELSE IF e.k.k > 0 THEN E1(KnnOk(e, T, R), "k_nearest_neighbours")
               ELSE E1(RadiusOk(e, T, R), "stored_pairs"))
         \cup (IF ~e.pd THEN {}
               ELSE E1(\A i \in 1..m : i \in Stored(R, i) /\ NEq(ValAt(R, i, i), 0), "zero_diagonal")
                    \cup (IF e.k.k > 0 THEN {}
                          ELSE E1(\A i \in 1..m : \A j \in Stored(R, i) : i \in Stored(R, j) /\ NClose(ValAt(R, i, j), ValAt(R, j, i), "1e-14", 0), "symmetric")))
Clauses(e) ==
    CASE e.op = "dist" ->
            E1(e.pre = e.after, "arguments_changed") \cup
            (IF ~FinP(e.X) \/ ~FinP(e.Y) THEN {}
             ELSE IF ~Adm(e) THEN E1(Rejected(e), "inadmissible_input_accepted")
             ELSE IF May(e) THEN {}
             ELSE IF e.err # "" THEN {"distance_failed"}
             ELSE ResultOk(e))
      \* the object as it was when created: a call does not change its parameters
      [] e.op = "obj" -> E1(e.err = "", "construction_failed")
      [] e.op = "crash" -> {"crash:" \o e.err}
      [] OTHER -> {}
\* parameters of the living object
Params(e) == IF e.op = "obj" THEN e.id ELSE s
Next == /\ l <= Len(Trace)
        /\ \A c \in Clauses(Trace[l]) \cup (IF Trace[l].op = "dist" THEN E1(Trace[l].id = s, "object_changed") ELSE {}) : PrintT(<<"VIO", l, c>>)
        /\ s' = Params(Trace[l])
        /\ l' = l + 1
Init == l = 1 /\ s = ""
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
