------------------------------ MODULE Temporal ------------------------------
(* Operators that combine samples of different times of one series (C05, M03). *)
EXTENDS TSC, Num, TLC
\* ----------------------------------------------- temporal operators with values
\* finite difference weights (offsets, numerators, common denominator) for unit spacing
FDTable(scheme, order, acc) ==
    CASE scheme = "center" /\ order = 1 /\ acc = 2 -> <<<<-1, 0, 1>>, <<-1, 0, 1>>, 2>>
      [] scheme = "center" /\ order = 1 /\ acc = 4 -> <<<<-2, -1, 0, 1, 2>>, <<1, -8, 0, 8, -1>>, 12>>
      [] scheme = "center" /\ order = 2 /\ acc = 2 -> <<<<-1, 0, 1>>, <<1, -2, 1>>, 1>>
      [] scheme = "center" /\ order = 2 /\ acc = 4 -> <<<<-2, -1, 0, 1, 2>>, <<-1, 16, -30, 16, -1>>, 12>>
      [] scheme = "center" /\ order = 3 /\ acc = 2 -> <<<<-2, -1, 0, 1, 2>>, <<-1, 2, 0, -2, 1>>, 2>>
      [] scheme = "forward" /\ order = 1 /\ acc = 2 -> <<<<0, 1, 2>>, <<-3, 4, -1>>, 2>>
      [] scheme = "forward" /\ order = 1 /\ acc = 4 -> <<<<0, 1, 2, 3, 4>>, <<-25, 48, -36, 16, -3>>, 12>>
      [] scheme = "forward" /\ order = 2 /\ acc = 2 -> <<<<0, 1, 2, 3>>, <<2, -5, 4, -1>>, 1>>
      [] scheme = "backward" /\ order = 1 /\ acc = 2 -> <<<<-2, -1, 0>>, <<1, -4, 3>>, 2>>
      [] scheme = "backward" /\ order = 1 /\ acc = 4 -> <<<<-4, -3, -2, -1, 0>>, <<3, -16, 36, -48, 25>>, 12>>
      [] scheme = "backward" /\ order = 2 /\ acc = 2 -> <<<<-3, -2, -1, 0>>, <<-1, 4, -5, 2>>, 1>>
FDMin(w) == Min(Range1(w[1]))
FDMax(w) == Max(Range1(w[1]))
\* rows of the derivative of one series: <<id, time, sum of weights>>
FDSeries(s, w, h, order, shift) ==
    LET lo == -FDMin(w) hi == FDMax(w) n == Len(s) - lo - hi IN
    IF n <= 0 THEN <<>> ELSE
    [k \in 1..n |->
        LET i == k + lo IN
        <<s[i][1], IF shift THEN s[i + hi][2] ELSE s[i][2],
          [j \in 1..Len(s[1][3]) |->
            NDiv(NSum([q \in DOMAIN w[1] |-> NMul(w[2][q], s[i + w[1][q]][3][j])]), NMul(w[3], NPow(h, order)))]>>]
IdxSame(D, rows) == Len(D) = Len(rows) /\ \A i \in DOMAIN rows : D[i][1] = rows[i][1] /\ D[i][2] = rows[i][2]
ValClose(D, rows, rt, at) == Len(D) = Len(rows) /\ \A i \in DOMAIN rows : VClose(D[i][3], rows[i][3], rt, at)
CatBy(C, ids, F(_)) == Flat([k \in DOMAIN ids |-> F(Ser(C, ids[k]))])
\* results are compared per series, the order of the series in the result is not prescribed
SeriesEq(D, rows, rt, at) ==
    /\ IdsOf(D) = IdsOf(rows) /\ Contiguous(D)
    /\ \A id \in IdsOf(rows) : IdxSame(SerOf(D, id), SerOf(rows, id)) /\ ValClose(SerOf(D, id), SerOf(rows, id), rt, at)
MASeries(s, w) == [k \in 1..(Len(s) - w + 1) |-> <<s[k][1], s[k + w - 1][2],
    [j \in 1..Len(s[1][3]) |-> NDiv(NSum([q \in 1..w |-> s[k + q - 1][3][j]]), w)]>>]
\* weighted moving average / delay kernel with weights (newest first)
TakSeries(s, delays, kappa) ==
    LET m == Max(Range1(delays)) n == Len(s) - m IN
    IF n <= 0 THEN <<>> ELSE
    [k \in 1..n |-> <<s[k][1], s[k + m][2], Flat([q \in DOMAIN delays |->
        [j \in 1..Len(s[1][3]) |-> IF NEq(kappa, 0) THEN s[k + m - delays[q]][3][j]
                                   ELSE NMul(NExp(NNeg(NMul(kappa, q - 1))), s[k + m - delays[q]][3][j])]])>>]
DelayIdx(n, lag, freq) == <<0>> \o [k \in 1..n |-> lag + 1 + (k - 1) * freq]
TakNames(cols, dl) == cols \o Flat([k \in 1..(Len(dl) - 1) |-> [j \in DOMAIN cols |-> cols[j] \o ":d" \o ToString(dl[k + 1])]])
=============================================================================
