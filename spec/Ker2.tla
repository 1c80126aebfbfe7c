-------------------------------- MODULE Ker2 --------------------------------
(***************************************************************************)
(* Kernel matrices (K02, K03, K04).  A kernel description is a record      *)
(*   k : [kern, eps, cut ("inf" | Euclidean length), knn, kmin,            *)
(*        kn, delta (continuous nearest neighbours), zeta, acc, h (cone)]  *)
(* A matrix with a sparsity pattern is [v |-> values (0 where nothing is   *)
(* stored), st |-> set of stored columns per row].                         *)
(* Points of the cone kernel are rows <<id, time, values>>.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Kern, Temporal
Cand(T, i) == DOMAIN T[i]
NthS(row, n) == CHOOSE v \in {row[j] : j \in DOMAIN row} :
    Cardinality({j \in DOMAIN row : NLt(row[j], v)}) < n /\ Cardinality({j \in DOMAIN row : NLe(row[j], v)}) >= n
InCut(k, T, i) == IF k.cut = "inf" THEN Cand(T, i) ELSE {j \in Cand(T, i) : NLe(T[i][j], NMul(k.cut, k.cut))}
Near(T, i, n) == {j \in Cand(T, i) : NLe(T[i][j], NthS(T[i], n))}
LackS(k, T, i) == k.cut # "inf" /\ k.kmin > 0 /\ Cardinality(InCut(k, T, i)) < k.kmin
\* columns stored in row i (T: squared distances; no ties where k-nearest neighbours matter)
Pattern(k, T, pd) == [i \in DOMAIN T |->
    IF k.knn > 0 THEN Near(T, i, k.knn)
    ELSE InCut(k, T, i) \cup (IF LackS(k, T, i) THEN Near(T, i, k.kmin) ELSE {})
         \cup (IF pd THEN {j \in DOMAIN T : LackS(k, T, j) /\ i \in Near(T, j, k.kmin)} ELSE {})]
IsSparse(k) == k.knn > 0 \/ k.cut # "inf" \/ k.kern = "cnn"
SymDist(k) == k.knn = 0
D2(Q, X) == Deep([i \in DOMAIN Q |-> [j \in DOMAIN X |-> SqDist(Q[i], X[j])]])
\* distance to the kn-th nearest reference point (a reference point counts itself)
KnnDist(k, T) == Deep([i \in DOMAIN T |-> NSqrt(NthS(T[i], k.kn))])
CnnFac(k, T, rd) == LET q == KnnDist(k, T) IN Deep([i \in DOMAIN T |-> [j \in DOMAIN T[i] |-> NDiv(NSqrt(T[i][j]), NSqrt(NMul(q[i], rd[j])))]])
\* ------------------------------------------------------------ cone kernel
ConeFlow(k, P) == LET w == FDTable("center", 1, k.acc) IN CatBy([rows |-> P], AppIds(P), LAMBDA s : FDSeries(s, w, k.h, 1, TRUE))
ConePts(P, F) == [i \in DOMAIN F |-> (CHOOSE r \in {P[q] : q \in DOMAIN P} : r[1] = F[i][1] /\ r[2] = F[i][2])[3]]
Norm(v) == NSqrt(NDot(v, v))
ConeVal(k, y, fy, x, fx) ==
    LET w == VSub(x, y) d2 == NDot(w, w) ny == Norm(fy) nx == Norm(fx)
        cos(f, n) == NDiv(NDot(f, w), NMul(n, NSqrt(d2)))
        ang(f, n) == NSub(1, NMul(k.zeta, NMul(cos(f, n), cos(f, n)))) IN
    IF NEq(d2, 0) THEN "1"
    ELSE NExp(NNeg(NMul(NDiv(d2, NMul(NMul(k.eps, NMul(k.h, k.h)), NMul(nx, ny))), NSqrt(NMul(ang(fy, ny), ang(fx, nx))))))
ConeMat(k, Q, X) ==
    LET FQ == Deep(ConeFlow(k, Q)) FX == Deep(ConeFlow(k, X)) PQ == Deep(ConePts(Q, FQ)) PX == Deep(ConePts(X, FX)) IN
    Deep([i \in DOMAIN FQ |-> [j \in DOMAIN FX |-> ConeVal(k, PQ[i], FQ[i][3], PX[j], FX[j][3])]])
ConeFlat(k, P) == LET F == ConeFlow(k, P) IN \E i \in DOMAIN F : NLe(Norm(F[i][3]), "1e-9")
\* ------------------------------------------------------- the kernel matrix
\* rd: distances to the kn-th neighbour of the reference points (continuous nearest neighbours only)
KernMat(k, Q, X, pd, rd) ==
    IF k.kern = "cone" THEN LET M == ConeMat(k, Q, X) IN [v |-> M, st |-> [i \in DOMAIN M |-> DOMAIN M[i]]]
    ELSE LET T == D2(Q, X) P == Deep(Pattern(k, T, pd)) IN
         IF k.kern = "cnn"
         THEN LET F == CnnFac(k, T, rd) S == Deep([i \in DOMAIN T |-> {j \in P[i] : NLt(F[i][j], k.delta)}]) IN
              [v |-> Deep([i \in DOMAIN T |-> [j \in DOMAIN X |-> IF j \in S[i] THEN "1" ELSE "0"]]), st |-> S]
         ELSE [v |-> Deep([i \in DOMAIN T |-> [j \in DOMAIN X |-> IF j \in P[i] THEN KVal(k.kern, k.eps, T[i][j]) ELSE "0"]]), st |-> P]
\* the cases in which the value is not determined (ties, zero distances to the neighbours, no motion)
KernMay(k, Q, X, rd) ==
    IF k.kern = "cone" THEN ConeFlat(k, Q) \/ ConeFlat(k, X) \/ Len(ConeFlow(k, X)) < 2
    ELSE k.kern = "cnn" /\
         LET T == D2(Q, X) q == KnnDist(k, T) IN
         \/ k.kn >= Len(X)
         \/ \E i \in DOMAIN q : NEq(q[i], 0)
         \/ \E j \in DOMAIN rd : NEq(rd[j], 0)
         \/ LET F == CnnFac(k, T, rd) IN \E i \in DOMAIN F : \E j \in DOMAIN F[i] : NClose(F[i][j], k.delta, "1e-9", "0")
RowSums(A) == Deep([i \in DOMAIN A |-> NSum(A[i])])
ColSums(A) == LET B == MT(A) IN Deep([j \in DOMAIN B |-> NSum(B[j])])
Pow(v, a) == Deep([i \in DOMAIN v |-> IF NEq(a, 0) THEN "1" ELSE IF NEq(a, 1) THEN v[i] ELSE NPowR(v[i], a)])
DivRC(A, r, c) == Deep([i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> NDiv(A[i][j], NMul(r[i], c[j]))]])
Ones(n) == [i \in 1..n |-> "1"]
\* ------------------------------------------- diffusion maps normalization
\* d : [stoch, alpha, sym];  qr : powered densities of the reference points
Dens(d, K) == Pow(RowSums(K), d.alpha)
Renorm(d, K, qr) == IF NEq(d.alpha, 0) THEN K ELSE DivRC(K, Dens(d, K), qr)
Conj(d, k) == d.stoch /\ d.sym /\ SymDist(k)
RowStoch(K) == LET r == RowSums(K) IN Deep([i \in DOMAIN K |-> [j \in DOMAIN K[i] |-> IF NEq(r[i], 0) THEN "0" ELSE NDiv(K[i][j], r[i])]])
ConjMat(K) == LET r == Deep([i \in DOMAIN K |-> NSqrt(NSum(K[i]))]) IN DivRC(K, r, r)
DmapMat(d, k, K, qr, pd) ==
    IF ~d.stoch THEN K ELSE LET N == Renorm(d, K, qr) IN IF pd /\ Conj(d, k) THEN ConjMat(N) ELSE RowStoch(N)
Basis(d, K, qr) == LET r == RowSums(Renorm(d, K, qr)) IN [i \in DOMAIN r |-> NDiv(1, NSqrt(r[i]))]
\* ------------------------------------------------ landmark normalization
RoseDens(a, K, ld) == IF NEq(a, 0) THEN K ELSE DivRC(K, Pow(RowSums(K), a), Pow(ld, a))
RoseMat(a, K, ld, sn) ==
    LET N == RoseDens(a, K, ld) q == MVec(N, sn) IN
    Deep([i \in DOMAIN N |-> [j \in DOMAIN N[i] |-> IF NEq(q[i], 0) THEN "0" ELSE NDiv(N[i][j], NSqrt(q[i]))]])
=============================================================================
