------------------------------- MODULE Kern -------------------------------
(* Values of the radial kernels as functions of the points (used by T02, K02, K04) *)
EXTENDS Integers, Sequences, Num
SqDist(x, y) == NSum([i \in 1..Len(x) |-> NMul(NSub(x[i], y[i]), NSub(x[i], y[i]))])
KVal(kernel, eps, d2) ==
    CASE kernel = "gauss" -> NExp(NNeg(NDiv(d2, NMul(2, eps))))
      [] kernel = "mq" -> NSqrt(NAdd(1, NDiv(d2, NMul(2, eps))))
      [] kernel = "imq" -> NDiv(1, NSqrt(NAdd(1, NDiv(d2, NMul(2, eps)))))
      [] kernel = "iq" -> NDiv(1, NAdd(1, NDiv(d2, NMul(2, eps))))
      [] kernel = "cubic" -> NPow(NSqrt(d2), 3)
      [] kernel = "quintic" -> NPow(NSqrt(d2), 5)
      [] kernel = "thinplate" -> IF NEq(d2, 0) THEN "0" ELSE NMul(d2, NLog(NSqrt(d2)))
\* rows: queries, columns: reference points
KMat(kernel, eps, Y, X) == [i \in DOMAIN Y |-> [j \in DOMAIN X |-> KVal(kernel, eps, SqDist(Y[i], X[j]))]]
===========================================================================
