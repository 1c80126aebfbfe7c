------------------------------- MODULE T_CV -------------------------------
(* Trace specification for cross-validation splits (V01). *)
EXTENDS T_COL, CVOps

Fold(f) == [tr |-> {x + 1 : x \in Range1(f[1])}, te |-> {x + 1 : x \in Range1(f[2])}]
Valid(C, f) == /\ \A x \in Range1(f[1]) \cup Range1(f[2]) : x >= 0 /\ x < NRows(C)
               /\ Asc(f[1]) /\ Asc(f[2]) /\ f[1] # <<>> /\ f[2] # <<>>
               /\ Range1(f[1]) \cap Range1(f[2]) = {}
KClauses(C, e, fs) ==
    E1(Len(fs) = e.k, "number_of_splits") \cup E1(Cover(C, fs), "tested_once_trained_on_rest")
    \cup E1(\A i \in DOMAIN fs : IF e.scheme = "series" THEN WholeSeries(C, fs[i]) ELSE WholeTimes(C, fs[i]), "fold_cuts_unit")
    \cup E1(Balanced([i \in DOMAIN fs |-> IF e.scheme = "series" THEN IdsIn(C, fs[i].te) ELSE TimesIn(C, fs[i].te)]), "unbalanced_folds")
    \cup (IF e.shuffle THEN {} ELSE
            E1(IF e.scheme = "series" THEN Ordered(C, fs, LAMBDA CC, S : {Min({i \in DOMAIN CC.rows : CC.rows[i][1] = CC.rows[s][1]}) : s \in S})
               ELSE Ordered(C, fs, TimesIn), "fold_order"))
SplitsClauses(e) ==
    LET C == st[e.h]
        ok == CASE e.scheme = "series" -> KSeriesOK(C, e.k) [] e.scheme = "time" -> KTimeOK(C, e.k) [] OTHER -> WinOK(C, e.w)
        fs == [i \in DOMAIN e.folds |-> Fold(e.folds[i])] IN
    IF e.scheme = "window" /\ AppIds(C.rows) # SortedIds(C) THEN {}      \* documented: series in order
    ELSE IF ~ok THEN E1(RejErr(e), "accepted_invalid_call")
    ELSE IF e.err # "" THEN {"rejected_valid_call"}
    ELSE IF ~ \A i \in DOMAIN e.folds : Valid(C, e.folds[i]) THEN {"fold_indices"}
    ELSE E1(e.announced = Len(e.folds), "announced_number_of_splits")
         \cup (IF e.scheme # "window" THEN KClauses(C, e, fs)
               ELSE LET want == WinFolds(C, e.w, e.o, e.m) IN
                    E1(Len(fs) = Len(want), "number_of_windows")
                    \cup (IF Len(fs) # Len(want) THEN {} ELSE
                          E1(\A i \in DOMAIN want : fs[i].te = want[i].te, "window_test") \cup
                          E1(\A i \in DOMAIN want : fs[i].tr = want[i].tr, "window_train")))
ClausesCV(e) == IF e.op = "split" THEN SplitsClauses(e) \cup E1(e.argsame, "operand_changed") ELSE Clauses(e)
NextCV ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
        /\ \A c \in ClausesCV(e) : PrintT(<<"VIO", l, c>>)
        /\ st' = IF e.op \in {"crash"} THEN st ELSE Step(e)
    /\ l' = l + 1
SpecCV == Init /\ [][NextCV]_vars
===========================================================================
