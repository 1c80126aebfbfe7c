-------------------------------- MODULE Dmp --------------------------------
(***************************************************************************)
(* Spectral embeddings (K03, K04): eigen-equations, completeness by the    *)
(* inertia of a symmetric matrix, Nystroem extension.                      *)
(***************************************************************************)
EXTENDS Ker2
\* number of eigenvalues of the symmetric matrix A below c = number of negative pivots of A - cI
RECURSIVE NegPiv(_)
NegPiv(B) ==
    IF B = <<>> THEN 0
    ELSE LET p == B[1][1] n == Len(B) IN
         IF NEq(p, 0) THEN 1000       \* c hits an eigenvalue of a leading block: no answer
         ELSE LET f == Deep([i \in 2..n |-> NDiv(B[i][1], p)]) IN
              (IF NLt(p, 0) THEN 1 ELSE 0) + NegPiv(Deep([i \in 1..(n - 1) |-> [j \in 1..(n - 1) |-> NSub(B[i + 1][j + 1], NMul(f[i + 1], B[1][j + 1]))]]))
ShiftM(A, c) == [i \in DOMAIN A |-> [j \in DOMAIN A |-> IF i = j THEN NSub(A[i][j], c) ELSE A[i][j]]]
Below(A, c) == NegPiv(ShiftM(A, c))
Above(A, c) == Len(A) - Below(A, c)
CountAbove(v, c) == Cardinality({i \in DOMAIN v : NLt(c, v[i])})
Decreasing(v) == \A i \in 1..(Len(v) - 1) : NLe(v[i + 1], v[i])
\* all eigenvalues above the smallest returned one are among the returned ones
Complete(A, v, tol) ==
    LET c == NAdd(v[Len(v)], tol) a == Above(A, c) IN a < 0 \/ a = CountAbove(v, c)
Orthogonal(C, tol) == \A i \in DOMAIN C : \A j \in DOMAIN C : i = j \/ NLe(NAbs(NDot(C[i], C[j])), NMul(tol, NMul(Norm(C[i]), Norm(C[j]))))
ColsOf(V) == MT(V)
PickCols(V, tc) == [i \in DOMAIN V |-> [j \in DOMAIN tc |-> V[i][tc[j] + 1]]]
Sel(v, tc) == [j \in DOMAIN tc |-> v[tc[j] + 1]]
PowL(x, t) == IF NEq(t, 0) THEN "1" ELSE IF NEq(t, 1) THEN x ELSE IF NEq(t, 2) THEN NMul(x, x) ELSE IF NEq(t, "-1") THEN NDiv(1, x)
              ELSE IF NEq(t, 3) THEN NPow(x, 3) ELSE IF NEq(t, 4) THEN NPow(x, 4) ELSE IF NEq(t, "-2") THEN NDiv(1, NMul(x, x)) ELSE NPowR(x, t)
ScaleCols(V, w) == Deep([i \in DOMAIN V |-> [j \in DOMAIN w |-> NMul(V[i][j], w[j])]])
=============================================================================
