------------------------------- MODULE T_EST -------------------------------
(***************************************************************************)
(* Trace specification of estimator lifecycles (M08, used by T01).         *)
(* est  : object -> [p, fit, k, D, fi]  (Life plus what fit announced)     *)
(* memo : (p, fit, method, input) -> observed result                       *)
(***************************************************************************)
EXTENDS TSC, Num, Life, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, est, memo
E1(b, c) == IF b THEN {} ELSE {c}
RejErr(e) == e.err # "" /\ e.err # "timeout"

NoInfo == [ok |-> FALSE]
\* eigenvectors are determined up to their sign: "sgn" compares the columns up to sign, "any" only the labels
ColUpToSign(a, b) == \A j \in 1..(IF Len(b) = 0 THEN 0 ELSE Len(b[1])) :
    LET x == [i \in 1..Len(a) |-> <<a[i][j]>>]
        y == [i \in 1..Len(b) |-> <<b[i][j]>>]
        z == [i \in 1..Len(b) |-> <<NNeg(b[i][j])>>]
        tol == NMul("1e-6", NMax2(1, MMaxAbs(y)))
    IN  MClose(x, y, "1e-6", tol) \/ MClose(x, z, "1e-6", tol)
SameResUpTo(a, b, up) ==
    /\ a.typ = b.typ /\ a.idx = b.idx /\ a.cols = b.cols
    /\ CASE up = "any" -> TRUE
         [] up = "sgn" -> Len(a.vals) = Len(b.vals) /\ (\A i \in 1..Len(a.vals) : Len(a.vals[i]) = Len(b.vals[i])) /\ ColUpToSign(a.vals, b.vals)
SameRes(a, b) ==
    /\ a.typ = b.typ /\ a.idx = b.idx /\ a.cols = b.cols
    /\ MClose(a.vals, b.vals, "1e-6", NMul("1e-7", NMax2(1, MMaxAbs(b.vals))))
Info(e) == [ok |-> TRUE, D |-> e.D, nin |-> e.nin, fin |-> e.fin, fout |-> e.fout, nout |-> e.nout, namesok |-> e.namesok]

\* ------------------------------------------------------------ transitions
NextEst(e) ==
    CASE e.op = "case" -> << >>
      [] e.op = "new" -> (e.h :> [p |-> e.p, fit |-> Unfitted, k |-> e.k, fi |-> NoInfo]) @@ est
      [] e.op = "setpar" -> [est EXCEPT ![e.h].p = e.p, ![e.h].k = e.k, ![e.h].fit = IF @ = Unfitted THEN Unfitted ELSE Unknown]
      [] e.op = "fit" -> IF e.err = "" THEN [est EXCEPT ![e.h].fit = e.d, ![e.h].fi = Info(e)]
                         ELSE [est EXCEPT ![e.h].fit = Unknown]
      [] e.op = "clone" -> IF e.err # "" THEN est ELSE (e.g :> [est[e.h] EXCEPT !.fit = Unfitted, !.fi = NoInfo]) @@ est
      [] e.op \in {"pickle", "deepcopy"} -> IF e.err # "" THEN est ELSE (e.g :> est[e.h]) @@ est
      [] OTHER -> est
CallKey(e) == IF e.op = "fit" THEN <<est[e.h].p, e.d, "transform", e.d>> ELSE Key(est[e.h], e.m, e.x)
HasResult(e) == \/ e.op = "call" /\ Determined(est[e.h])
                \/ e.op = "fit" /\ e.m = "fit_transform" /\ e.err = ""
ResOf(e) == [err |-> e.err, R |-> e.R]
\* whether data can be fitted is a function of the parameters and the data, too
FitKey(e) == <<est[e.h].p, e.d, "fitted", e.m>>
\* an iterative or rounding dependent solver gave up: says nothing about the history
NumErr(x) == x \in {"NumericalMathError", "ArpackNoConvergence", "ArpackError", "LinAlgError"}
NextMemo(e) ==
    IF e.op = "case" THEN << >>
    ELSE IF e.op = "fit" THEN
        LET m1 == IF FitKey(e) \in DOMAIN memo THEN memo ELSE (FitKey(e) :> [err |-> e.err, R |-> e.R]) @@ memo IN
        IF HasResult(e) /\ CallKey(e) \notin DOMAIN memo THEN (CallKey(e) :> ResOf(e)) @@ m1 ELSE m1
    ELSE IF HasResult(e) /\ CallKey(e) \notin DOMAIN memo THEN (CallKey(e) :> ResOf(e)) @@ memo ELSE memo

\* ------------------------------------------------------------ clauses
\* attributes that fit announces must be those of this fit, whatever was fitted before: the first fit with (p, d) is the reference
FitMemo(e) == <<est[e.h].p, e.d, "announced">>
Agree(e, R) == IF e.up = "" THEN SameRes(e.R, R) ELSE SameResUpTo(e.R, R, e.up)
LifeClauses(e) ==
    CASE e.op = "fit" ->
           E1(e.d1 = e.d, "training_data_changed_by_fit") \cup E1(e.par1 = est[e.h].p, "params_changed_by_fit")
           \cup E1(FitKey(e) \in DOMAIN memo => NumErr(memo[FitKey(e)].err) \/ NumErr(e.err) \/ (memo[FitKey(e)].err = "") = (e.err = ""), "fit_depends_on_history")
           \cup (IF HasResult(e) /\ CallKey(e) \in DOMAIN memo
                 THEN E1(memo[CallKey(e)].err = "" /\ Agree(e, memo[CallKey(e)].R), "fit_transform_differs_from_fit_and_transform") ELSE {})
      [] e.op = "call" ->
           E1(e.par1 = est[e.h].p, "params_changed_by_call") \cup E1(e.x1 = e.x, "input_changed") \cup E1(e.st1 = e.st0, "fitted_state_changed_by_call")
           \cup (IF MustRaiseNotFitted(est[e.h]) THEN E1(e.nf, "no_not_fitted_error")
                 ELSE IF Determined(est[e.h]) THEN
                    E1(~e.nf, "not_fitted_error_when_fitted")
                    \cup (IF CallKey(e) \in DOMAIN memo
                          THEN E1(memo[CallKey(e)].err = e.err /\ (e.err = "" => Agree(e, memo[CallKey(e)].R)), "result_depends_on_history") ELSE {})
                 ELSE {})
      [] e.op = "clone" -> E1(e.err = "", "clone_failed") \cup E1(e.err = "" => e.par1 = est[e.h].p, "clone_parameters")
      [] e.op \in {"pickle", "deepcopy"} -> E1(e.err = "", "copy_failed") \cup E1(e.err = "" => e.par1 = est[e.h].p, "copy_parameters")
      [] e.op = "crash" -> {"crash:" \o e.err}
      [] OTHER -> {}
TInit == l = 1 /\ est = << >> /\ memo = << >>
TStep(e) == est' = NextEst(e) /\ memo' = NextMemo(e) /\ l' = l + 1
Init == TInit
Next == /\ l <= Len(Trace)
        /\ \A c \in LifeClauses(Trace[l]) : PrintT(<<"VIO", l, c>>)
        /\ TStep(Trace[l])
Spec == Init /\ [][Next]_<<l, est, memo>>
=============================================================================
