------------------------------- MODULE MC_EST -------------------------------
(***************************************************************************)
(* Design model of estimator lifecycles.  Next to the abstract object      *)
(* (Life) every object carries the attributes an implementation keeps:     *)
(*   attrs : written by fit, names : feature names, cache : computed by    *)
(*   the first call that needs it.                                         *)
(* RESET = TRUE is the design (fit forgets everything of earlier fits);    *)
(* with RESET = FALSE the invariants fail, which shows that the histories  *)
(* generated here can expose stale state.                                  *)
(***************************************************************************)
EXTENDS Life, Json, CSV, IOUtils
CONSTANTS D, NOBJ, DATA, INPUTS, PARS, RESET, GEN
VARIABLES obj, impl, hist
vars == <<obj, impl, hist>>
view == <<obj, impl, Len(hist)>>
H == DOMAIN obj
Pick(S) == IF GEN /\ S # {} THEN {RandomElement(S)} ELSE S
Imp0 == [attrs |-> "", names |-> "", cache |-> ""]
ImpFit(s, p, d) == [attrs |-> p \o d,
                    names |-> IF RESET \/ s.names = "" THEN p \o d ELSE s.names,
                    cache |-> IF RESET THEN "" ELSE s.cache]
ImpCall(s) == [s EXCEPT !.cache = IF s.cache = "" THEN s.attrs ELSE s.cache]
ImpRes(s) == <<s.attrs, s.names, IF s.cache = "" THEN s.attrs ELSE s.cache>>
Fresh(p, d) == ImpRes(ImpFit(Imp0, p, d))
Log(e) == hist' = Append(hist, e)
New == /\ Len(obj) < NOBJ
       /\ \E p \in Pick(PARS) : obj' = Append(obj, Obj(p)) /\ impl' = Append(impl, Imp0) /\ Log([op |-> "new", par |-> p])
Fit == \E h \in Pick(H) : \E d \in Pick(DATA) :
       /\ obj' = [obj EXCEPT ![h] = DoFit(@, d)] /\ impl' = [impl EXCEPT ![h] = ImpFit(@, obj[h].p, d)]
       /\ \E m \in Pick({"fit", "fit_transform"}) : Log([op |-> "fit", h |-> h, d |-> d, m |-> m])
BadFit == \E h \in Pick(H) : \E d \in Pick(DATA) :
       /\ obj' = [obj EXCEPT ![h] = DoBadFit(@)] /\ impl' = [impl EXCEPT ![h] = [@ EXCEPT !.attrs = "?"]]
       /\ Log([op |-> "badfit", h |-> h, d |-> d])
Call == \E h \in Pick(H) : \E x \in Pick(INPUTS) :
       /\ impl' = IF Determined(obj[h]) THEN [impl EXCEPT ![h] = ImpCall(@)] ELSE impl
       /\ Log([op |-> "call", h |-> h, x |-> x]) /\ UNCHANGED obj
BadCall == \E h \in Pick({h \in H : Determined(obj[h])}) : \E x \in Pick(INPUTS) :
       Log([op |-> "badcall", h |-> h, x |-> x]) /\ UNCHANGED <<obj, impl>>
Clone == /\ Len(obj) < NOBJ
         /\ \E h \in Pick(H) : obj' = Append(obj, DoClone(obj[h])) /\ impl' = Append(impl, Imp0) /\ Log([op |-> "clone", h |-> h])
Copy == /\ Len(obj) < NOBJ
        /\ \E h \in Pick(H) : \E m \in Pick({"pickle", "deepcopy"}) :
             obj' = Append(obj, DoCopy(obj[h])) /\ impl' = Append(impl, impl[h]) /\ Log([op |-> m, h |-> h])
SetParams == \E h \in Pick(H) : \E p \in Pick(PARS \ {obj[h].p}) :
       /\ obj' = [obj EXCEPT ![h] = DoSetParams(@, p)] /\ UNCHANGED impl
       /\ Log([op |-> "setpar", h |-> h, par |-> p])
Init == obj = <<>> /\ impl = <<>> /\ hist = <<>>
Weighted == IF GEN THEN \E k \in {RandomElement(1..14)} :
        CASE k \in 1..4 -> Fit [] k \in 5..7 -> Call [] k = 8 -> (IF \E h \in H : Determined(obj[h]) THEN BadCall ELSE Fit) [] k = 9 -> BadFit [] k = 10 -> (IF Len(obj) < NOBJ THEN Clone ELSE Fit)
          [] k = 11 -> (IF Len(obj) < NOBJ THEN Copy ELSE Fit) [] k = 12 -> SetParams [] k \in 13..14 -> (IF Len(obj) < NOBJ THEN New ELSE Call)
    ELSE New \/ Fit \/ BadFit \/ Call \/ BadCall \/ Clone \/ Copy \/ SetParams
Next == Len(hist) < D /\ (IF obj = <<>> THEN New ELSE Weighted)
Spec == Init /\ [][Next]_vars

ResultIsFunctionOfFit == \A h \in H : Determined(obj[h]) => ImpRes(impl[h]) = Fresh(obj[h].p, obj[h].fit)
CloneUnfitted == \A h \in H : obj[h].fit = Unfitted => impl[h].attrs \in {"", "?"}
SameKeySameResult == \A g, h \in H : (Determined(obj[g]) /\ Determined(obj[h]) /\ obj[g] = obj[h]) => ImpRes(impl[g]) = ImpRes(impl[h])
Emit == Len(hist) = D => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.BEH)
=============================================================================
