------------------------------ MODULE Metrics ------------------------------
(***************************************************************************)
(* Error metrics of time series collections (V02) as formulas over decimal *)
(* numbers.  a, b: sequences of true and predicted values of one feature   *)
(* in one group of samples, w: sample weights (a sequence of ones if none).*)
(***************************************************************************)
EXTENDS TSC, Num

Diff(a, b) == [i \in DOMAIN a |-> NSub(a[i], b[i])]
WMean(x, w) == NDiv(NDot(x, w), NSum(w))
SqAll(x) == [i \in DOMAIN x |-> NMul(x[i], x[i])]
AbsAll(x) == [i \in DOMAIN x |-> NAbs(x[i])]
Sorted(x) == SortSeq(x, LAMBDA p, q : NLt(p, q))
Median(x) == LET s == Sorted(x) n == Len(x) IN
    IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE NDiv(NAdd(s[n \div 2], s[n \div 2 + 1]), 2)
Mse(a, b, w) == WMean(SqAll(Diff(a, b)), w)
Raw(m, a, b, w) ==
    CASE m = "mse"  -> Mse(a, b, w)
      [] m = "rmse" -> NSqrt(Mse(a, b, w))
      [] m = "mae"  -> WMean(AbsAll(Diff(a, b)), w)
      [] m = "mape" -> WMean([i \in DOMAIN a |-> NDiv(NAbs(NSub(a[i], b[i])), NMax2(NAbs(a[i]), "2.220446049250313e-16"))], w)
      [] m = "medae" -> Median(AbsAll(Diff(a, b)))
      [] m = "max"  -> NMaxAbs(Diff(a, b))
      [] m = "l2"   -> NSqrt(NSum(SqAll([i \in DOMAIN a |-> NMul(w[i], NSub(a[i], b[i]))])))
      [] m = "linf" -> NMaxAbs([i \in DOMAIN a |-> NMul(w[i], NSub(a[i], b[i]))])
      [] m = "rrmse" -> NSqrt(NDiv(Mse(a, b, w), NSum(SqAll(a))))
\* A, B: sequences (one per feature) of value sequences;  fw: feature weights
Reduced(m, A, B, w, fw) ==
    IF m = "rrmse"      \* relative to the norm of all features
    THEN NSqrt(NDiv(WMean([j \in DOMAIN A |-> Mse(A[j], B[j], w)], fw), NSum([j \in DOMAIN A |-> NSum(SqAll(A[j]))])))
    ELSE WMean([j \in DOMAIN A |-> Raw(m, A[j], B[j], w)], fw)

\* scaling: factors and offsets are those of the true values
Mean(x) == NDiv(NSum(x), Len(x))
Var(x) == Mean(SqAll([i \in DOMAIN x |-> NSub(x[i], Mean(x))]))
NMaxSeq(x) == Sorted(x)[Len(x)]
NMinSeq(x) == Sorted(x)[1]
Nz(x) == IF NEq(x, 0) THEN 1 ELSE x
ScaleOff(s, a) == CASE s = "id" -> 0 [] s = "min-max" -> NMinSeq(a) [] s = "standard" -> Mean(a) [] s = "l2_normalize" -> 0
ScaleDiv(s, a) == CASE s = "id" -> 1 [] s = "min-max" -> Nz(NSub(NMaxSeq(a), NMinSeq(a))) [] s = "standard" -> Nz(NSqrt(Var(a)))
                    [] s = "l2_normalize" -> Nz(NSqrt(NSum(SqAll(a))))
Scaled(s, a, x) == LET o == ScaleOff(s, a) d == ScaleDiv(s, a) IN [i \in DOMAIN x |-> NDiv(NSub(x[i], o), d)]
===========================================================================
