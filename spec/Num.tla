------------------------------- MODULE Num -------------------------------
(***************************************************************************)
(* Decimal numbers for the value clauses of the specification.             *)
(* A number is a TLA+ integer or a string: "1.25", "-3e-7", "nan", "inf",  *)
(* "-inf" (the form in which the harness logs floating point values, which *)
(* round-trips exactly).  TLC evaluates the scalar operators with a module *)
(* override (java/Num.java, 40 significant digits); the definitions below  *)
(* give the meaning of the derived operators in terms of the scalar ones,  *)
(* the override evaluates them faster.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* scalar primitives (interpreted by the override)
NAdd(a, b) == CHOOSE r \in STRING : TRUE    \* a + b
NMul(a, b) == CHOOSE r \in STRING : TRUE    \* a * b
NDiv(a, b) == CHOOSE r \in STRING : TRUE    \* a / b  ("nan"/"inf" for zero divisors, as IEEE)
NSqrt(a)   == CHOOSE r \in STRING : TRUE
NExp(a)    == CHOOSE r \in STRING : TRUE
NLog(a)    == CHOOSE r \in STRING : TRUE
NSin(a)    == CHOOSE r \in STRING : TRUE
NCos(a)    == CHOOSE r \in STRING : TRUE
NAtan2(a, b) == CHOOSE r \in STRING : TRUE  \* angle of the point (b, a)
NPowR(a, b) == CHOOSE r \in STRING : TRUE   \* real power
NLe(a, b)  == CHOOSE r \in BOOLEAN : TRUE   \* FALSE if one is nan
NLt(a, b)  == CHOOSE r \in BOOLEAN : TRUE
NEq(a, b)  == CHOOSE r \in BOOLEAN : TRUE   \* nan = nan here
NIsFin(a)  == CHOOSE r \in BOOLEAN : TRUE

\* the value itself (its evaluation is forced: TLC would evaluate nested functions again and again)
Deep(v) == v

\* derived
NNeg(a)    == NMul(-1, a)
NSub(a, b) == NAdd(a, NNeg(b))
NAbs(a)    == IF NLe(0, a) THEN a ELSE NNeg(a)
NMax2(a, b) == IF NLe(b, a) THEN a ELSE b
NMin2(a, b) == IF NLe(a, b) THEN a ELSE b
RECURSIVE NPow(_, _)
NPow(a, n) == IF n = 0 THEN 1 ELSE NMul(a, NPow(a, n - 1))
\* equal up to rounding: relative tolerance rtol, absolute tolerance atol
NClose(a, b, rtol, atol) ==
    IF NIsFin(a) /\ NIsFin(b)
    THEN NLe(NAbs(NSub(a, b)), NAdd(NMul(rtol, NMax2(NAbs(a), NAbs(b))), atol))
    ELSE NEq(a, b)

\* vectors are sequences, matrices are sequences of rows
RECURSIVE NSum(_)
NSum(s) == IF s = <<>> THEN 0 ELSE NAdd(Head(s), NSum(Tail(s)))
NDot(s, t) == NSum([i \in 1..Len(s) |-> NMul(s[i], t[i])])
RECURSIVE NMaxAbs(_)
NMaxAbs(s) == IF s = <<>> THEN 0 ELSE NMax2(NAbs(Head(s)), NMaxAbs(Tail(s)))
VAdd(s, t) == [i \in 1..Len(s) |-> NAdd(s[i], t[i])]
VSub(s, t) == [i \in 1..Len(s) |-> NSub(s[i], t[i])]
VScale(c, s) == [i \in 1..Len(s) |-> NMul(c, s[i])]
MVec(A, v) == [i \in 1..Len(A) |-> NDot(A[i], v)]
MT(A) == IF A = <<>> THEN <<>> ELSE [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
MMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> NDot(A[i], [k \in 1..Len(B) |-> B[k][j]])]]
MMaxAbs(A) == NMaxAbs([i \in 1..Len(A) |-> NMaxAbs(A[i])])
VClose(s, t, rtol, atol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : NClose(s[i], t[i], rtol, atol)
MClose(A, B, rtol, atol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VClose(A[i], B[i], rtol, atol)
\* the matrix X with A X = B (all entries "nan" if A is singular)
MSolve(A, B) == CHOOSE X \in Seq(Seq(STRING)) : MMul(A, X) = B

\* helpers that are not overridden
MAdd(A, B) == [i \in 1..Len(A) |-> VAdd(A[i], B[i])]
MSub(A, B) == [i \in 1..Len(A) |-> VSub(A[i], B[i])]
MScale(c, A) == [i \in 1..Len(A) |-> VScale(c, A[i])]
MShape(A, n, m) == Len(A) = n /\ \A i \in 1..n : Len(A[i]) = m
MEye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
RECURSIVE MPow(_, _)
MPow(A, n) == IF n = 0 THEN MEye(Len(A)) ELSE MMul(A, MPow(A, n - 1))
MCol(A, j) == [i \in 1..Len(A) |-> A[i][j]]
Zeros(n) == [i \in 1..n |-> "0"]
==========================================================================
