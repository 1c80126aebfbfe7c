------------------------------- MODULE Life -------------------------------
(***************************************************************************)
(* Lifecycle of an estimator: constructor parameters, the data it was      *)
(* fitted with, and results.  An estimator object is                       *)
(*    p   : class and constructor parameters (a token)                     *)
(*    fit : token of the data of the last successful fit, "" if unfitted,  *)
(*          "?" after a rejected fit or changed parameters                 *)
(* The result of a call is a function of (p, fit, method, input): nothing  *)
(* else of the history may influence it.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Unfitted == ""
Unknown == "?"
Obj(p) == [p |-> p, fit |-> Unfitted]
\* transitions
DoFit(o, d) == [o EXCEPT !.fit = d]
DoBadFit(o) == [o EXCEPT !.fit = Unknown]
DoSetParams(o, p) == [p |-> p, fit |-> IF o.fit = Unfitted THEN Unfitted ELSE Unknown]
DoClone(o) == Obj(o.p)
DoCopy(o) == o                                     \* serialization round trip, deep copy
\* what a call has to do
MustRaiseNotFitted(o) == o.fit = Unfitted
Determined(o) == o.fit \notin {Unfitted, Unknown}
Key(o, m, x) == <<o.p, o.fit, m, x>>
===========================================================================
