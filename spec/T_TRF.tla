------------------------------- MODULE T_TRF -------------------------------
(***************************************************************************)
(* Trace specification of transformers (T01): which input is admissible,   *)
(* which samples come out, under which names and in which type.            *)
(***************************************************************************)
EXTENDS T_EST
C0(X) == Coll([i \in DOMAIN X.idx |-> <<X.idx[i][1], X.idx[i][2], X.vals[i]>>], X.cols, X.tk)
FinM(A) == \A i \in DOMAIN A : \A j \in DOMAIN A[i] : A[i][j] \notin {"nan", "inf", "-inf"}
\* number of first samples of each series for which no output is defined
RECURSIVE Drop(_)
Drop(k) ==
    CASE k.cls = "takens" -> k.lag + 1 + (k.delays - 1) * k.freq
      [] k.cls = "ma" -> k.window - 1
      [] k.cls = "fd" -> IF k.scheme = "center" THEN 2 * ((k.order + 1) \div 2) - 2 + k.acc ELSE k.order + k.acc - 1
      [] k.cls = "ct" -> Max({Drop(k.subs[i]) : i \in DOMAIN k.subs})
      [] k.cls = "pipe" -> LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE Drop(k.subs[i]) + S(i - 1) IN S(Len(k.subs))
      [] OTHER -> 0
TscOnly(k) == k.cls \in {"takens", "select", "lambdas", "fd", "ma", "ct", "pipe"}
HasInverse(k) == k.cls \in {"identity", "preprocess", "pca", "takens", "rbf"}
Named(X) == X.typ \in {"tsc", "df"}
TypeRank(k) == k
MinLenX(X) == Min(Lens(C0(X)))
DeltaX(X) == IF ConstDelta(C0(X)) THEN TheDelta(C0(X)) ELSE NaN
NeedsDelta(k) == k.cls \in {"takens", "fd"}

FitRejects(k, D) ==
    \/ (k.cls # "select" /\ ~FinM(D.vals))
    \/ (TscOnly(k) /\ k.cls # "select" /\ D.typ # "tsc")
    \/ (k.cls = "select" /\ D.typ = "np")
    \/ (k.cls = "select" /\ k.strs /\ Named(D) /\ \E i \in DOMAIN k.features : k.features[i] \notin Range1(D.cols))
    \/ (k.cls = "takens" /\ (DeltaX(D) = NaN \/ MinLenX(D) <= Drop(k)))
    \/ (k.cls = "fd" /\ DeltaX(D) = NaN)
    \/ (k.cls = "ma" /\ (DeltaX(D) = NaN \/ NRows(C0(D)) < k.window))
    \/ (k.cls = "rbf" /\ k.center = "random" /\ k.n > Len(D.vals))
    \/ (k.cls = "rbf" /\ k.center = "initial_condition" /\ D.typ # "tsc")
FitUnspecified(k, D) ==
    \/ (k.cls = "fd" /\ D.tk = "d") \/ (k.cls \in {"fd", "ma"} /\ MinLenX(D) <= Drop(k))
    \/ (k.cls = "pca" /\ k.n > Min({Len(D.vals), Len(D.vals[1])}))
    \/ k.cls \in {"ct", "pipe"} \/ (k.cls = "poly" /\ ~D.strcols)
    \/ (k.cls = "rbf" /\ ((k.center = "random" /\ k.n = 1) \/ (k.center = "all_data" /\ Len(D.vals) = 1)
                          \/ (k.center = "initial_condition" /\ D.typ = "tsc" /\ Cardinality(IdSet(C0(D))) = 1)))
\* names of a fit on unnamed data are not specified
TransRejects(o, X) ==
    LET k == o.k D == o.fi.D IN
    \/ (k.cls # "ct" /\ ~FinM(X.vals))
    \/ (TscOnly(k) /\ X.typ # "tsc")
    \/ (k.cls # "ct" /\ Len(X.cols) # Len(D.cols))
    \/ (k.cls # "ct" /\ Named(D) /\ Named(X) /\ X.cols # D.cols)
    \/ (k.cls = "takens" /\ X.typ = "tsc" /\ (DeltaX(X) # DeltaX(D) \/ MinLenX(X) <= Drop(k)))
    \/ (k.cls = "fd" /\ X.typ = "tsc" /\ DeltaX(X) # DeltaX(D))
    \/ (k.cls = "ma" /\ X.typ = "tsc" /\ (DeltaX(X) = NaN \/ NRows(C0(X)) < k.window))
TransUnspecified(o, X) ==
    \/ (~Named(o.fi.D) /\ Named(X))
    \/ (o.k.cls = "fd" /\ X.tk = "d") \/ (o.k.cls \in {"fd", "ma"} /\ X.typ = "tsc" /\ MinLenX(X) <= Drop(o.k))
    \/ o.k.cls \in {"ct", "pipe"} \/ (o.k.cls = "rbf" /\ o.fi.nout = 1)
InvRejects(o, X) ==
    \/ Len(X.cols) # o.fi.nout
    \/ (o.fi.namesok /\ Named(o.fi.D) /\ Named(X) /\ X.cols # o.fi.fout)
    \/ (o.k.cls = "takens" /\ X.typ # "tsc")
InvUnspecified(o, X) == ~FinM(X.vals) \/ (o.k.cls = "rbf" /\ o.fi.nout = 1) \/ (Named(X) /\ (~Named(o.fi.D) \/ ~o.fi.namesok))

\* ------------------------------------------------------------ names
Cat(cols, suf) == [i \in DOMAIN cols |-> cols[i] \o suf]
Num2(p, n) == [i \in 1..n |-> p \o ToString(i - 1)]
NamesKnown(k, D) == Named(D) /\ D.strcols /\ k.cls \in {"identity", "preprocess", "select", "pca", "takens", "rbf", "lambdas", "fd", "ma"}
Names(k, D, nout) ==
    CASE k.cls = "identity" -> (IF k.rename THEN Cat(D.cols, "_id") ELSE D.cols) \o (IF k.const THEN <<"const">> ELSE <<>>)
      [] k.cls = "preprocess" -> D.cols
      [] k.cls = "select" -> IF k.strs THEN k.features ELSE [i \in DOMAIN k.features |-> D.cols[k.features[i] + 1]]
      [] k.cls = "pca" -> Num2("pca", k.n)
      [] k.cls = "rbf" -> Num2("rbf", nout)
      [] k.cls = "takens" -> D.cols \o Flat([j \in 1..k.delays |-> Cat(D.cols, ":d" \o ToString(k.lag + 1 + (j - 1) * k.freq))])
      [] k.cls = "lambdas" -> Flat([j \in DOMAIN k.fns |-> Cat(D.cols, "_lambda" \o ToString(j - 1))])
      [] k.cls = "fd" -> Cat(D.cols, "_dot" \o ToString(k.order))
      [] k.cls = "ma" -> Cat(D.cols, "_ma" \o ToString(k.window))

\* ------------------------------------------------------------ samples
RECURSIVE DropFirst(_, _, _)
DropFirst(idx, n, seen) ==
    IF idx = <<>> THEN <<>>
    ELSE LET id == Head(idx)[1] c == IF id \in DOMAIN seen THEN seen[id] ELSE 0 IN
         (IF c >= n THEN <<Head(idx)>> ELSE <<>>) \o DropFirst(Tail(idx), n, (id :> (c + 1)) @@ seen)
SerIdx(idx, id) == SelectSeq(idx, LAMBDA r : r[1] = id)
SameSamples(out, exp, pointwise) ==
    IF pointwise THEN out = exp
    ELSE /\ Len(out) = Len(exp)
         /\ \A id \in {exp[i][1] : i \in DOMAIN exp} : SerIdx(out, id) = SerIdx(exp, id)
ExpIdx(k, X) == IF X.typ = "tsc" THEN DropFirst(X.idx, Drop(k), << >>) ELSE X.idx

FitClauses(e) ==
    LET k == est[e.h].k D == e.D IN
    IF FitRejects(k, D) THEN E1(RejErr(e), "fit_accepted_inadmissible_data")
    ELSE IF FitUnspecified(k, D) /\ e.err # "" THEN {}
    ELSE IF e.err # "" THEN {"fit_rejected_admissible_data"}
    ELSE E1(e.nin = Len(D.cols), "n_features_in")
         \cup E1((Named(D) /\ e.finok) => e.fin = D.cols, "feature_names_in")
         \cup E1(Named(D) => e.namesok, "no_announced_names")
         \cup E1(e.namesok => Len(e.fout) = e.nout, "announced_number_of_outputs")
         \cup E1((e.namesok /\ NamesKnown(k, D)) => e.fout = Names(k, D, e.nout), "announced_names")
OutClauses(o, X, R) ==
    E1(R.typ = X.typ, "output_type")
    \cup E1(SameSamples(R.idx, ExpIdx(o.k, X), Drop(o.k) = 0 /\ o.k.cls \notin {"ct", "pipe", "ma", "takens"}), "output_samples")
    \cup E1((\A i \in DOMAIN R.vals : Len(R.vals[i]) = o.fi.nout), "number_of_outputs")
    \cup E1((o.fi.namesok /\ Named(X) /\ Named(o.fi.D)) => R.cols = o.fi.fout, "output_names")
TransClauses(e) ==
    LET o == est[e.h] X == e.X IN
    IF TransRejects(o, X) THEN E1(RejErr(e), "transform_accepted_inadmissible_data")
    ELSE IF TransUnspecified(o, X) /\ (e.err # "" \/ ~Named(o.fi.D)) THEN {}
    ELSE IF e.err # "" THEN {"transform_rejected_admissible_data"}
    ELSE OutClauses(o, X, e.R)
InvClauses(e) ==
    LET o == est[e.h] X == e.X IN
    IF ~HasInverse(o.k) THEN {}
    ELSE IF InvRejects(o, X) THEN E1(RejErr(e), "inverse_accepted_inadmissible_data")
    ELSE IF InvUnspecified(o, X) THEN {}
    ELSE IF e.err # "" THEN {"inverse_rejected_admissible_data"}
    ELSE E1(e.R.typ = X.typ, "inverse_type")
         \cup E1(e.R.idx = X.idx, "inverse_samples")
         \cup E1(\A i \in DOMAIN e.R.vals : Len(e.R.vals[i]) = o.fi.nin, "inverse_number_of_features")
         \cup E1((Named(X) /\ Named(o.fi.D)) => e.R.cols = o.fi.D.cols, "inverse_names")
TrfClauses(e) ==
    LifeClauses(e) \cup
    CASE e.op = "fit" -> FitClauses(e) \cup (IF e.m = "fit_transform" /\ e.err = "" /\ Named(e.D)
                                             THEN OutClauses([est[e.h] EXCEPT !.fi = Info(e)], e.D, e.R) ELSE {})
      [] e.op = "call" /\ Determined(est[e.h]) -> IF e.m = "transform" THEN TransClauses(e) ELSE IF e.m = "inverse_transform" THEN InvClauses(e) ELSE {}
      [] OTHER -> {}
TNext == /\ l <= Len(Trace)
         /\ \A c \in TrfClauses(Trace[l]) : PrintT(<<"VIO", l, c>>)
         /\ TStep(Trace[l])
TSpec == TInit /\ [][TNext]_<<l, est, memo>>
=============================================================================
