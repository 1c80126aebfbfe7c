------------------------------- MODULE Trf -------------------------------
(***************************************************************************)
(* Values of the data transformations: the documented map of every         *)
(* transformer from the parameters k, the fit data D and the input X, and  *)
(* its inverse.                                                            *)
(***************************************************************************)
EXTENDS TSC, Num, Kern
Cat(cols, suf) == [i \in DOMAIN cols |-> cols[i] \o suf]
Pos(cols, c) == CHOOSE i \in DOMAIN cols : cols[i] = c
\* a frame is [idx, cols, vals]
Sub(F, cs) == [F EXCEPT !.cols = cs, !.vals = [i \in DOMAIN F.vals |-> [j \in DOMAIN cs |-> F.vals[i][Pos(F.cols, cs[j])]]]]
N(F) == Len(F.vals)
Mean(s) == NDiv(NSum(s), Len(s))
Var(s) == LET m == Mean(s) IN NDiv(NSum([i \in DOMAIN s |-> NMul(NSub(s[i], m), NSub(s[i], m))]), Len(s))
ColMeans(F) == [j \in DOMAIN F.cols |-> Mean(MCol(F.vals, j))]
MinS(s) == FoldLeft(LAMBDA a, b : NMin2(a, b), Head(s), s)
MaxS(s) == FoldLeft(LAMBDA a, b : NMax2(a, b), Head(s), s)
IsConst(s) == \A i \in DOMAIN s : s[i] = s[1]
\* (offset, scale) of a column: x -> (x - offset) / scale
Scaling(k, s) ==
    CASE k.name = "min-max" -> <<MinS(s), IF IsConst(s) THEN "1" ELSE NSub(MaxS(s), MinS(s))>>
      [] k.name = "standard" -> <<Mean(s), IF IsConst(s) THEN "1" ELSE NSqrt(Var(s))>>
      [] k.name = "center" -> <<Mean(s), "1">>
Scalings(k, D) == [j \in DOMAIN D.cols |-> Scaling(k, MCol(D.vals, j))]
\* rows of one series, with their positions kept
SerPos(F, id) == SelectSeq([i \in 1..N(F) |-> i], LAMBDA i : F.idx[i][1] = id)
RECURSIVE IdsInOrder(_, _)
IdsInOrder(idx, seen) == IF idx = <<>> THEN <<>>
    ELSE IF Head(idx)[1] \in seen THEN IdsInOrder(Tail(idx), seen)
    ELSE <<Head(idx)[1]>> \o IdsInOrder(Tail(idx), seen \cup {Head(idx)[1]})
\* values of sample i made of the samples back(0), back(1).. of its own series; rows without enough history are dropped
Delays(k) == [j \in 1..k.delays |-> k.lag + 1 + (j - 1) * k.freq]
TakensF(k, X) ==
    LET dl == Delays(k) m == dl[k.delays] ids == IdsInOrder(X.idx, {})
        ser(id) == LET p == SerPos(X, id) IN
            [q \in 1..(Len(p) - m) |->
                <<X.idx[p[q + m]],
                  X.vals[p[q + m]] \o Flat([j \in DOMAIN dl |-> VScale(IF k.kappa = "0" THEN 1 ELSE NExp(NNeg(NMul(k.kappa, j))), X.vals[p[q + m - dl[j]]])])>>]
        rows == Flat([q \in DOMAIN ids |-> ser(ids[q])])
    IN [idx |-> [i \in DOMAIN rows |-> rows[i][1]], vals |-> [i \in DOMAIN rows |-> rows[i][2]],
        cols |-> X.cols \o Flat([j \in DOMAIN dl |-> Cat(X.cols, ":d" \o ToString(dl[j]))])]
MAF(k, X) ==
    LET ids == IdsInOrder(X.idx, {})
        ser(id) == LET p == SerPos(X, id) IN
            [q \in 1..(Len(p) - k.window + 1) |->
                <<X.idx[p[q + k.window - 1]], [j \in DOMAIN X.cols |-> Mean([w \in 1..k.window |-> X.vals[p[q + w - 1]][j]])]>>]
        rows == Flat([q \in DOMAIN ids |-> ser(ids[q])])
    IN [idx |-> [i \in DOMAIN rows |-> rows[i][1]], vals |-> [i \in DOMAIN rows |-> rows[i][2]], cols |-> Cat(X.cols, "_ma" \o ToString(k.window))]
\* monomials: exponent vectors by degree, lexicographically descending within a degree
RECURSIVE Exps(_, _, _)
Exps(n, g, cap) ==      \* all exponent vectors of length n, total degree g, entries <= cap
    IF n = 0 THEN (IF g = 0 THEN << <<>> >> ELSE <<>>)
    ELSE Flat([q \in 1..(Min({g, cap}) + 1) |->
            LET a == Min({g, cap}) + 1 - q r == Exps(n - 1, g - a, cap) IN [i \in DOMAIN r |-> <<a>> \o r[i]]])
Powers(k, n) ==
    LET cap == IF k.inter THEN 1 ELSE k.degree
        all == Flat([g \in 1..(k.degree + 1) |-> Exps(n, g - 1, cap)])
        deg(p) == FoldLeft(LAMBDA a, b : a + b, 0, p)
    IN SelectSeq(all, LAMBDA p : (deg(p) # 0 \/ k.bias) /\ (deg(p) # 1 \/ k.first))
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o " " \o Join(Tail(s))
MonName(p, cols) ==
    LET nz == SelectSeq([i \in DOMAIN p |-> i], LAMBDA i : p[i] > 0) IN
    IF nz = <<>> THEN "1" ELSE Join([q \in DOMAIN nz |-> IF p[nz[q]] = 1 THEN cols[nz[q]] ELSE cols[nz[q]] \o "^" \o ToString(p[nz[q]])])
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN "1" ELSE NMul(Head(s), Prod(Tail(s)))
Mon(p, v) == Prod([i \in DOMAIN p |-> NPow(v[i], p[i])])
Lam(f, x) == CASE f = "sq" -> NMul(x, x) [] f = "plus1" -> NAdd(x, 1) [] f = "sin" -> NSin(x) [] f = "cos" -> NCos(x)
\* centers of radial basis functions
FirstRows(F) == LET ids == SetToSortSeq({F.idx[i][1] : i \in DOMAIN F.idx}, <) IN [q \in DOMAIN ids |-> F.vals[SerPos(F, ids[q])[1]]]
CentersOk(k, D, C) ==
    CASE k.center = "all_data" -> C = D.vals
      [] k.center = "initial_condition" -> Range1(C) = Range1(FirstRows(D)) /\ Len(C) = Len(FirstRows(D))
      [] k.center = "random" -> Len(C) = k.n /\ \A c \in Range1(C) : Count(C, c) <= Count(D.vals, c)
      [] k.center = "fit_params" -> C = k.centers
Centers(k, D) == IF k.center = "all_data" THEN D.vals ELSE k.centers
PointMap(X, cols, F(_)) == [idx |-> X.idx, cols |-> cols, vals |-> [i \in DOMAIN X.vals |-> F(X.vals[i])]]
RECURSIVE Out(_, _, _)
Out(k, D, X) ==
    CASE k.cls = "identity" -> PointMap(X, (IF k.rename THEN Cat(X.cols, "_id") ELSE X.cols) \o (IF k.const THEN <<"const">> ELSE <<>>),
                                        LAMBDA v : v \o (IF k.const THEN <<"1">> ELSE <<>>))
      [] k.cls = "select" -> Sub(X, IF k.strs THEN k.features ELSE [i \in DOMAIN k.features |-> X.cols[k.features[i] + 1]])
      [] k.cls = "preprocess" -> LET sc == Scalings(k, D) IN PointMap(X, X.cols, LAMBDA v : [j \in DOMAIN v |-> NDiv(NSub(v[j], sc[j][1]), sc[j][2])])
      [] k.cls = "takens" -> TakensF(k, X)
      [] k.cls = "ma" -> MAF(k, X)
      [] k.cls = "poly" -> LET ps == Powers(k, Len(X.cols)) IN
                           PointMap(X, [q \in DOMAIN ps |-> MonName(ps[q], X.cols)], LAMBDA v : [q \in DOMAIN ps |-> Mon(ps[q], v)])
      [] k.cls = "lambdas" -> PointMap(X, Flat([q \in DOMAIN k.fns |-> Cat(X.cols, "_lambda" \o ToString(q - 1))]),
                                       LAMBDA v : Flat([q \in DOMAIN k.fns |-> [j \in DOMAIN v |-> Lam(k.fns[q], v[j])]]))
      [] k.cls = "rbf" -> LET c == Centers(k, D) IN
                          [idx |-> X.idx, cols |-> [q \in DOMAIN c |-> "rbf" \o ToString(q - 1)], vals |-> KMat(k.kernel, k.eps, X.vals, c)]
      [] k.cls = "pca" -> LET mu == ColMeans(D) IN PointMap(X, [q \in DOMAIN k.comp |-> "pca" \o ToString(q - 1)], LAMBDA v : MVec(k.comp, VSub(v, mu)))
      [] k.cls = "ct" -> LET outs == [q \in DOMAIN k.subs |-> Out(k.subs[q], Sub(D, k.subs[q].cols), Sub(X, k.subs[q].cols))]
                             has(r) == \A q \in DOMAIN outs : \E i \in DOMAIN outs[q].idx : outs[q].idx[i] = r
                             keep == SelectSeq(X.idx, has)
                             at(o, r) == o.vals[CHOOSE i \in DOMAIN o.idx : o.idx[i] = r]
                         IN [idx |-> keep, cols |-> Flat([q \in DOMAIN outs |-> [j \in DOMAIN outs[q].cols |-> "t" \o ToString(q - 1) \o "__" \o outs[q].cols[j]]]),
                             vals |-> [i \in DOMAIN keep |-> Flat([q \in DOMAIN outs |-> at(outs[q], keep[i])])]]
      [] k.cls = "pipe" -> LET RECURSIVE P(_, _, _)
                               P(i, A, B) == IF i > Len(k.subs) THEN B ELSE P(i + 1, Out(k.subs[i], A, A), Out(k.subs[i], A, B))
                           IN P(1, D, X)
\* result frame equals the expected one up to the order of the series
Named(X) == X.typ \in {"tsc", "df"}
RowsOf(F) == [i \in DOMAIN F.idx |-> <<F.idx[i], F.vals[i]>>]
Tol(X) == NMul("1e-10", NMax2(1, MMaxAbs(X.vals)))
ValsMatch(R, W, rtol, atol) ==
    IF R.idx = W.idx THEN MClose(R.vals, W.vals, rtol, atol)
    ELSE /\ Len(R.idx) = Len(W.idx)
         /\ \A i \in DOMAIN W.idx : \E j \in DOMAIN R.idx : R.idx[j] = W.idx[i] /\ VClose(R.vals[j], W.vals[i], rtol, atol)
\* positive semi-definiteness of symmetric matrices up to 3x3 by principal minors
Det2(A, i, j) == NSub(NMul(A[i][i], A[j][j]), NMul(A[i][j], A[j][i]))
Det3(A) == NAdd(NSub(NMul(A[1][1], NSub(NMul(A[2][2], A[3][3]), NMul(A[2][3], A[3][2]))), NMul(A[1][2], NSub(NMul(A[2][1], A[3][3]), NMul(A[2][3], A[3][1])))),
                NMul(A[1][3], NSub(NMul(A[2][1], A[3][2]), NMul(A[2][2], A[3][1]))))
PSD(A, tol) ==
    LET n == Len(A) IN
    /\ \A i \in 1..n : NLe(NNeg(tol), A[i][i])
    /\ \A i, j \in 1..n : i < j => NLe(NNeg(tol), Det2(A, i, j))
    /\ n = 3 => NLe(NNeg(tol), Det3(A))
\* principal components: orthonormal leading eigenvectors of the covariance of the fit data
PCAOk(k, D) ==
    LET mu == ColMeans(D) C == k.comp n == Len(C)
        Z == [i \in DOMAIN D.vals |-> VSub(D.vals[i], mu)]
        S == MScale(NDiv(1, Len(Z)), MMul(MT(Z), Z))
        L == MMul(MMul(C, S), MT(C))
        sc == NMax2("1e-12", MMaxAbs(S))
        low == L[n][n]
        Rem == MSub(S, MMul(MMul(MT(C), L), C))
    IN MClose(MMul(C, MT(C)), MEye(n), 0, "1e-8")
       /\ (\A i, j \in 1..n : i # j => NLe(NAbs(L[i][j]), NMul("1e-8", sc)))
       /\ (\A i \in 1..(n - 1) : NLe(L[i + 1][i + 1], NAdd(L[i][i], NMul("1e-8", sc))))
       /\ PSD(MScale(NDiv(1, sc), MSub(MScale(low, MEye(Len(S))), Rem)), "1e-7")
InvOut(k, D, Y) ==
    CASE k.cls = "identity" -> [i \in DOMAIN Y.vals |-> SubSeq(Y.vals[i], 1, Len(D.cols))]
      [] k.cls = "preprocess" -> LET sc == Scalings(k, D) IN [i \in DOMAIN Y.vals |-> [j \in DOMAIN sc |-> NAdd(NMul(Y.vals[i][j], sc[j][2]), sc[j][1])]]
      [] k.cls = "takens" -> [i \in DOMAIN Y.vals |-> SubSeq(Y.vals[i], 1, Len(D.cols))]
      [] k.cls = "pca" -> LET mu == ColMeans(D) IN [i \in DOMAIN Y.vals |-> VAdd(mu, MVec(MT(k.comp), Y.vals[i]))]
Lossless(k, D) == k.cls \in {"identity", "preprocess", "takens"} \/ (k.cls = "pca" /\ Len(k.comp) = Len(D.cols)) \/ (k.cls = "rbf")
=============================================================================
