------------------------------- MODULE Estimators -------------------------------
(***************************************************************************)
(* Estimators of returns and covariances, as formulas over histories with  *)
(* gaps.  A history is a sequence of rows (periods); a missing value is    *)
(* <<>>.                                                                   *)
(***************************************************************************)
EXTENDS Trace
Here(x) == x # <<>>
Obs(v) == SelectSeq(v, Here)
HCol(X, i) == FForce([t \in 1..Len(X) |-> X[t][i]])
Wid(X) == Len(X[1])
RowUsed(r) == \E j \in 1..Len(r) : Here(r[j])
Used(X) == SelectSeq(X, RowUsed)                      \* rows that are not all missing

\* returns of a price history, with the periods they belong to
RetRow(p, q, log) == [j \in 1..Len(p) |->
  IF ~Here(p[j]) \/ ~Here(q[j]) \/ p[j][1] = 0 THEN <<>>
  ELSE IF log THEN FLn(FDiv(q[j], p[j])) ELSE FSub(FDiv(q[j], p[j]), FOne)]
AllReturns(P, log) == FForce([t \in 1..(Len(P) - 1) |-> RetRow(P[t], P[t + 1], log)])
Returns(P, log) == Used(AllReturns(P, log))
ReturnDates(P, log) == SelectSeq([t \in 1..(Len(P) - 1) |-> t + 1], LAMBDA t : RowUsed(AllReturns(P, log)[t - 1]))
\* prices that start at one
RECURSIVE Cum(_, _, _, _)
Cum(v, t, acc, out) ==
  IF t > Len(v) THEN out
  ELSE IF t = 1 THEN Cum(v, 2, FOne, <<FOne>>)
  ELSE IF ~Here(v[t]) THEN Cum(v, t + 1, acc, Append(out, <<>>))
  ELSE LET a == FMul(acc, v[t]) IN Cum(v, t + 1, a, Append(out, a))
PricesOf(X, log) ==
  LET cols == FForce([j \in 1..Wid(X) |->
        LET c == HCol(X, j) IN
        Cum(FForce([t \in 1..Len(X) |-> IF ~Here(c[t]) THEN <<>> ELSE IF log THEN FExp(c[t]) ELSE FAdd(FOne, c[t])]), 1, FOne, <<>>)])
  IN  FForce([t \in 1..Len(X) |-> [j \in 1..Wid(X) |-> cols[j][t]]])
\* something missing after the first observation of its column
Gap(v) == \E s, t \in 1..Len(v) : s < t /\ Here(v[s]) /\ ~Here(v[t])
Gaps(X) == \E j \in 1..Wid(X) : Gap(HCol(X, j))

RECURSIVE FProd(_, _, _)
FProd(v, i, acc) == IF i > Len(v) THEN acc ELSE FProd(v, i + 1, FMul(acc, FAdd(FOne, v[i])))
\* annualised mean of a series
Annual(v, f, geometric) ==
  LET o == Obs(v) IN
  IF geometric THEN FSub(FPowR(FProd(o, 1, FOne), FDiv(f, FInt(Len(o)))), FOne) ELSE FMul(FMean(o), f)
MeanHist(X, f, geometric) == [j \in 1..Wid(X) |-> Annual(HCol(X, j), f, geometric)]
\* exponentially weighted mean at the last period; missing values keep their place
RECURSIVE EwmC(_, _, _, _, _, _)
EwmC(v, t, w, d, num, den) ==       \* from the last period backwards, d = 1 - alpha
  IF t = 0 THEN FDiv(num, den)
  ELSE EwmC(v, t - 1, FMul(w, d), d, IF Here(v[t]) THEN FAdd(num, FMul(w, v[t])) ELSE num, IF Here(v[t]) THEN FAdd(den, w) ELSE den)
Ewm(v, span) == EwmC(v, Len(v), FOne, FSub(FOne, FDiv(FInt(2), FAdd(span, FOne))), FZero, FZero)
Ema(X, f, geometric, span) ==
  [j \in 1..Wid(X) |-> LET e == Ewm(HCol(X, j), span)
                       IN  IF geometric THEN FSub(FPowR(FAdd(FOne, e), f), FOne) ELSE FMul(e, f)]
\* covariance of two series over the periods in which both are present
PairCov(u, v) ==
  LET both == SelectSeq([t \in 1..Len(u) |-> t], LAMBDA t : Here(u[t]) /\ Here(v[t]))
      k == Len(both)
      a == [i \in 1..k |-> u[both[i]]]
      b == [i \in 1..k |-> v[both[i]]]
      ma == FMean(a)
      mb == FMean(b)
  IN  FDiv(FDot([i \in 1..k |-> FSub(a[i], ma)], [i \in 1..k |-> FSub(b[i], mb)]), FInt(k - 1))
\* enough common observations for every pair
Overlap(X, k) == \A i, j \in 1..Wid(X) :
  Len(SelectSeq([t \in 1..Len(X) |-> t], LAMBDA t : Here(X[t][i]) /\ Here(X[t][j]))) >= k
SymM(n, F(_, _)) == LET up == FForce([i \in 1..n |-> [j \in 1..n |-> IF i <= j THEN F(i, j) ELSE FZero]])
                    IN  FForce([i \in 1..n |-> [j \in 1..n |-> IF i <= j THEN up[i][j] ELSE up[j][i]]])
Sample(X) == LET c == FForce([j \in 1..Wid(X) |-> HCol(X, j)]) IN SymM(Wid(X), LAMBDA i, j : PairCov(c[i], c[j]))
EqualMarket(X) == FForce([t \in 1..Len(X) |-> IF RowUsed(X[t]) THEN FMean(Obs(X[t])) ELSE <<>>])
Betas(X, m) == LET v == PairCov(m, m) IN [j \in 1..Wid(X) |-> FDiv(PairCov(HCol(X, j), m), v)]
Capm(X, m, rf, f, geometric) ==
  LET b == Betas(X, m)
      e == FSub(Annual(m, f, geometric), rf)
  IN  [j \in 1..Wid(X) |-> FAdd(rf, FMul(b[j], e))]
Semi(X, bench) ==
  LET n == Wid(X)
      d == FForce([j \in 1..n |-> [t \in 1..Len(X) |-> IF Here(X[t][j]) THEN FMin(FSub(X[t][j], bench), FZero) ELSE FZero]])
  IN  SymM(n, LAMBDA i, j : FDiv(FDot(d[i], d[j]), FInt(Len(X))))
ExpCov(X, span) ==
  LET n == Wid(X)
      mean == FForce([j \in 1..n |-> FMean(Obs(HCol(X, j)))])
      d == FForce([j \in 1..n |-> [t \in 1..Len(X) |-> IF Here(X[t][j]) THEN FSub(X[t][j], mean[j]) ELSE <<>>]])
  IN  SymM(n, LAMBDA i, j : Ewm(FForce([t \in 1..Len(X) |-> IF Here(d[i][t]) /\ Here(d[j][t]) THEN FMul(d[i][t], d[j][t]) ELSE <<>>]), span))
Corr(S) == LET n == Len(S)
               sd == FForce([i \in 1..n |-> FSqrt(S[i][i])])
           IN  FForce([i \in 1..n |-> [j \in 1..n |-> FDiv(S[i][j], FMul(sd[i], sd[j]))]])
CovOf(R, sd) == FForce([i \in 1..Len(R) |-> [j \in 1..Len(R) |-> FMul(R[i][j], FMul(sd[i], sd[j]))]])

----------------------------------------------------------------------------
(* Definiteness, and the nearest positive semidefinite matrix.             *)
RECURSIVE PosPivots(_)
PosPivots(M) ==               \* all pivots of the elimination are positive
  IF M = <<>> THEN TRUE
  ELSE IF M[1][1][1] <= 0 THEN FALSE
  ELSE LET n == Len(M)
           r == FForce([j \in 1..(n - 1) |-> FDiv(M[1][j + 1], M[1][1])])
       IN  PosPivots(FForce([i \in 1..(n - 1) |-> [j \in 1..(n - 1) |-> FSub(M[i + 1][j + 1], FMul(M[i + 1][1], r[j]))]]))
Shift(M, s) == FForce([i \in 1..Len(M) |-> [j \in 1..Len(M) |-> IF i = j THEN FAdd(M[i][i], s) ELSE M[i][j]]])
\* least eigenvalue > -s
Above(M, s) == PosPivots(Shift(M, s))
Inner(A, M) == FSum([i \in 1..Len(A) |-> FDot(A[i], M[i])])
SymOk(A, s, k) == \A i, j \in 1..Len(A) : FLe(FAbs(FSub(A[i][j], A[j][i])), FMul(FRat(1, k), s))
FinM(A, n) == Len(A) = n /\ \A i \in 1..n : Len(A[i]) = n /\ Finite(A[i])
\* A is the projection of M on the positive semidefinite matrices (Moreau's conditions); sc: scale of M
IsProjection(A, M, sc) ==
  LET tiny == FDiv(sc, FPow(FInt(10), 12))
      D == FMSub(A, M)
  IN  /\ SymOk(A, sc, 1000000000)
      /\ Above(A, tiny) /\ Above(D, tiny)
      /\ FLe(FAbs(Inner(A, D)), FMul(sc, tiny))
\* A = M + c I with c = 11/10 of the magnitude of the lowest eigenvalue of M (negative)
IsShifted(A, M, sc) ==
  LET n == Len(M)
      c == FSub(A[1][1], M[1][1])
      e == FDiv(FMul(c, FInt(10)), FInt(11))
      tiny == FDiv(sc, FPow(FInt(10), 9))
  IN  /\ \A i, j \in 1..n : FLe(FAbs(FSub(A[i][j], FAdd(M[i][j], IF i = j THEN c ELSE FZero))), tiny)
      /\ Above(M, FAdd(e, tiny)) /\ ~Above(M, FSub(e, tiny))
Scale(M) == FMax(MaxAbsM(M), FRat(1, 1000000000))
\* the answer of an estimator whose formula gives M: M itself when it is
\* positive definite, its repair when it clearly is not, either in between
Repaired(A, M, method) ==
  LET sc == Scale(M)
      n == Len(M)
      plain == NearM(A, M, sc, 1000000000)
      low == FDiv(sc, FPow(FInt(10), 11))
  IN  /\ FinM(A, n)
      /\ SymOk(A, sc, 1000000000)
      /\ IF Above(M, FNeg(low)) THEN plain
         ELSE IF Above(M, low) THEN NearM(A, M, sc, 1000000)
         ELSE IF method = "diag" THEN IsShifted(A, M, sc) ELSE IsProjection(A, M, sc)

----------------------------------------------------------------------------
(* Shrinkage (Ledoit and Wolf 2001, 2003, 2004; Chen et al. 2010).  X: a    *)
(* history without gaps (missing values count as zero).                     *)
Filled(X) == FForce([t \in 1..Len(X) |-> [j \in 1..Wid(X) |-> IF Here(X[t][j]) THEN X[t][j] ELSE FZero]])
Demean(X) == LET m == FForce([j \in 1..Wid(X) |-> FMean(HCol(X, j))])
             IN  FForce([t \in 1..Len(X) |-> FVSub(X[t], m)])
Mom(A, Bm) == LET a == FTrans(A) b == FTrans(Bm)          \* (1/T) A' B
              IN  FForce([i \in 1..Len(a) |-> [j \in 1..Len(b) |-> FDiv(FDot(a[i], b[j]), FInt(Len(A)))]])
SumM(M) == FSum([i \in 1..Len(M) |-> FSum(M[i])])
Sq(x) == FMul(x, x)
SqM(M) == FForce([i \in 1..Len(M) |-> [j \in 1..Len(M[1]) |-> Sq(M[i][j])]])
Tr(M) == FSum([i \in 1..Len(M) |-> M[i][i]])
Fro2(M) == SumM(SqM(M))
Clip(x) == FMax(FZero, FMin(FOne, x))
Blend(d, F, S) == FMAdd(FMScale(d, F), FMScale(FSub(FOne, d), S))
Identity(S) == LET mu == FDiv(Tr(S), FInt(Len(S))) IN Diag([i \in 1..Len(S) |-> mu])
\* [delta, sure, cov]: sure is FALSE when the target is (nearly) the sample and delta arbitrary
LWVariance(X) ==
  LET Z == Demean(X)
      S == Mom(Z, Z)
      F == Identity(S)
      T == Len(X)
      Y == SqM(Z)
      d2 == Fro2(FMSub(S, F))
      b2 == FDiv(FSub(SumM(Mom(Y, Y)), Fro2(S)), FInt(T))
      sure == FLt(FDiv(Fro2(S), FInt(1000000)), d2)
  IN  [F |-> F, S |-> S, sure |-> sure, delta |-> IF sure THEN Clip(FDiv(FMin(b2, d2), d2)) ELSE FZero]
OAS(X) ==
  LET Z == Demean(X)
      S == Mom(Z, Z)
      n == Len(S)
      T == Len(X)
      t2 == Fro2(S)
      tt == Sq(Tr(S))
      den == FMul(FInt(T + 1), FSub(t2, FDiv(tt, FInt(n))))
      sure == FLt(FDiv(t2, FInt(1000000)), den)
  IN  [F |-> Identity(S), S |-> S, sure |-> sure, delta |-> IF sure THEN Clip(FDiv(FAdd(t2, tt), den)) ELSE FZero]
LWFactor(X) ==
  LET Z == Demean(X)
      n == Wid(X)
      T == Len(X)
      mk == FForce([t \in 1..T |-> FMean(Z[t])])
      S == Mom(Z, Z)
      bet == FForce([i \in 1..n |-> FDiv(FDot(HCol(Z, i), mk), FInt(T))])
      var == FDiv(FDot(mk, mk), FInt(T))
      F == FForce([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN S[i][i] ELSE FDiv(FMul(bet[i], bet[j]), var)]])
      Y == SqM(Z)
      W == FForce([t \in 1..T |-> FScale(mk[t], Z[t])])
      c == Fro2(FMSub(S, F))
      p == FSub(SumM(Mom(Y, Y)), Fro2(S))
      rdiag == FSub(FDiv(SumM(SqM(Y)), FInt(T)), FSum([i \in 1..n |-> Sq(S[i][i])]))
      yz == Mom(Y, W)
      zz == Mom(W, W)
      off == {q \in (1..n) \X (1..n) : q[1] # q[2]}
      sumoff(G(_, _)) == FSum([i \in 1..n |-> FSum([j \in 1..n |-> IF i = j THEN FZero ELSE G(i, j)])])
      r1 == sumoff(LAMBDA i, j : FDiv(FMul(bet[j], FSub(yz[i][j], FMul(bet[i], S[i][j]))), var))
      r3 == sumoff(LAMBDA i, j : FDiv(FMul(FMul(bet[i], bet[j]), FSub(zz[i][j], FMul(var, S[i][j]))), Sq(var)))
      r == FAdd(rdiag, FSub(FMul(FInt(2), r1), r3))
      sure == FLt(FDiv(Fro2(S), FInt(1000000)), c)
  IN  [F |-> F, S |-> S, sure |-> sure, delta |-> IF sure THEN Clip(FDiv(FDiv(FSub(p, r), c), FInt(T))) ELSE FZero]
LWCorrelation(X, S) ==        \* S: the sample covariance (unbiased)
  LET Z == Demean(X)
      n == Wid(X)
      T == Len(X)
      sd == FForce([i \in 1..n |-> FSqrt(S[i][i])])
      R == Corr(S)
      rbar == FDiv(FSub(SumM(R), FInt(n)), FInt(n * (n - 1)))
      F == FForce([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN S[i][i] ELSE FMul(rbar, FMul(sd[i], sd[j]))]])
      E == Mom(Z, Z)
      Y == SqM(Z)
      Q == Mom(Y, Y)
      pi == FForce([i \in 1..n |-> [j \in 1..n |-> FAdd(FSub(Q[i][j], FMul(FInt(2), FMul(E[i][j], S[i][j]))), Sq(S[i][j]))]])
      C3 == Mom(FForce([t \in 1..T |-> [j \in 1..n |-> FMul(Y[t][j], Z[t][j])]]), Z)
      \* theta[i][j]: asymptotic covariance of sqrt(T) s_ii with sqrt(T) s_ij
      theta(i, j) == FAdd(FSub(FSub(C3[i][j], FMul(E[i][i], S[i][j])), FMul(E[i][j], S[i][i])), FMul(S[i][i], S[i][j]))
      rho == FAdd(Tr(pi), FMul(rbar, FSum([i \in 1..n |-> FSum([j \in 1..n |->
                IF i = j THEN FZero ELSE FMul(FDiv(sd[j], sd[i]), theta(i, j))])])))
      g == Fro2(FMSub(S, F))
      sure == FLt(FDiv(Fro2(S), FInt(1000000)), g)
  IN  [F |-> F, S |-> S, sure |-> sure, delta |-> IF sure THEN Clip(FDiv(FDiv(FSub(SumM(pi), rho), g), FInt(T))) ELSE FZero]
=============================================================================
