---------------------------------- MODULE Fx ----------------------------------
(***************************************************************************)
(* Exact fixed-point arithmetic for the specifications.                    *)
(*                                                                         *)
(* TLC's integers are 32 bits wide, so a number is the sequence            *)
(*     <<sign, d0, d1, ...>>                                               *)
(* with sign \in {-1,0,1} and the magnitude  sum_i d_i * 10000^i  (no      *)
(* high zero limb) counted in units of 10^-24 (FL = 6 limbs).  Zero is     *)
(* <<0>>.  Products, quotients and roots are truncated toward zero at      *)
(* 10^-24.                                                                 *)
(*                                                                         *)
(* Every operator below has its definition here, in plain TLA+.  The class *)
(* spec/java/Fx.java, when it is on TLC's class path, replaces the ones it *)
(* names by BigInteger code; FxTest checks that both give the same values. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

FB == 10000          \* limb base
FL == 6              \* limbs after the point: 10^-24

----------------------------------------------------------------------------
(* Magnitudes: little-endian limb sequences.                               *)

RECURSIVE NTrim(_)
NTrim(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

NAt(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN -1
                   ELSE IF a[i] > b[i] THEN 1 ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpAt(a, b, Len(a))

RECURSIVE NAddC(_, _, _, _, _)
NAddC(a, b, i, c, acc) ==
  IF i > Len(a) /\ i > Len(b) THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET s == NAt(a, i) + NAt(b, i) + c
       IN  NAddC(a, b, i + 1, s \div FB, Append(acc, s % FB))
NAdd(a, b) == NAddC(a, b, 1, 0, <<>>)

RECURSIVE NSubC(_, _, _, _, _)
NSubC(a, b, i, c, acc) ==                         \* requires a >= b
  IF i > Len(a) THEN NTrim(acc)
  ELSE LET s == a[i] - NAt(b, i) - c
       IN  IF s < 0 THEN NSubC(a, b, i + 1, 1, Append(acc, s + FB))
                    ELSE NSubC(a, b, i + 1, 0, Append(acc, s))
NSub(a, b) == NSubC(a, b, 1, 0, <<>>)

RECURSIVE NMulD(_, _, _, _, _)
NMulD(a, d, i, c, acc) ==                         \* one limb times a
  IF i > Len(a) THEN NTrim(IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET s == a[i] * d + c
       IN  NMulD(a, d, i + 1, s \div FB, Append(acc, s % FB))

NShift(a, k) == IF a = <<>> THEN a ELSE [i \in 1..k |-> 0] \o a
RECURSIVE NMulC(_, _, _, _)
NMulC(a, b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE NMulC(a, b, i + 1, NAdd(acc, NShift(NMulD(a, b[i], 1, 0, <<>>), i - 1)))
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE NMulC(a, b, 1, <<>>)

RECURSIVE NDigit(_, _, _, _)
NDigit(r, b, lo, hi) ==          \* the largest d in lo..hi with d*b <= r
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN  IF NCmp(NMulD(b, m, 1, 0, <<>>), r) <= 0
           THEN NDigit(r, b, m, hi) ELSE NDigit(r, b, lo, m - 1)
RECURSIVE NDivC(_, _, _, _, _)
NDivC(a, b, i, r, q) ==          \* schoolbook long division, high limb first
  IF i = 0 THEN NTrim(q)
  ELSE LET r1 == NTrim(<<a[i]>> \o r)
           d  == NDigit(r1, b, 0, FB - 1)
       IN  NDivC(a, b, i - 1, NSub(r1, NMulD(b, d, 1, 0, <<>>)), <<d>> \o q)
NDiv(a, b) == NDivC(a, b, Len(a), <<>>, <<>>)

RECURSIVE NSqrtC(_, _)
NSqrtC(a, x) == LET y == NDiv(NAdd(x, NDiv(a, x)), <<2>>)   \* Newton from above
                IN  IF NCmp(y, x) >= 0 THEN x ELSE NSqrtC(a, y)
NSqrt(a) == IF a = <<>> THEN <<>>
            ELSE NSqrtC(a, NShift(<<1>>, (Len(a) + 1) \div 2 + 1))

RECURSIVE NInt(_)
NInt(n) == IF n = 0 THEN <<>> ELSE <<n % FB>> \o NInt(n \div FB)
NDrop(a, k) == IF Len(a) <= k THEN <<>> ELSE SubSeq(a, k + 1, Len(a))
RECURSIVE NToInt(_)
NToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + FB * NToInt(Tail(a))

----------------------------------------------------------------------------
(* Signed fixed-point numbers.                                             *)

Mag(a)    == Tail(a)
Mk(s, m)  == IF m = <<>> THEN <<0>> ELSE <<s>> \o m

FZero     == <<0>>
FInt(n)   == IF n = 0 THEN <<0>> ELSE IF n > 0 THEN Mk(1, NShift(NInt(n), FL))
                                          ELSE Mk(-1, NShift(NInt(-n), FL))
FOne      == FInt(1)
FSign(a)  == a[1]
FNeg(a)   == <<-a[1]>> \o Tail(a)
FAbs(a)   == IF a[1] < 0 THEN FNeg(a) ELSE a
FCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
              ELSE IF a[1] = 0 THEN 0
              ELSE IF a[1] > 0 THEN NCmp(Mag(a), Mag(b)) ELSE NCmp(Mag(b), Mag(a))
FAdd(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
              ELSE IF a[1] = b[1] THEN Mk(a[1], NAdd(Mag(a), Mag(b)))
              ELSE LET c == NCmp(Mag(a), Mag(b)) IN
                   IF c = 0 THEN FZero
                   ELSE IF c > 0 THEN Mk(a[1], NSub(Mag(a), Mag(b)))
                   ELSE Mk(b[1], NSub(Mag(b), Mag(a)))
FSub(a, b) == FAdd(a, FNeg(b))
FMul(a, b) == Mk(a[1] * b[1], NDrop(NMul(Mag(a), Mag(b)), FL))
FDiv(a, b) == Mk(a[1] * b[1], NDiv(NShift(Mag(a), FL), Mag(b)))    \* b # 0
FSqrt(a)   == Mk(1, NSqrt(NShift(Mag(a), FL)))                      \* a >= 0
FRat(p, q) == FDiv(FInt(p), FInt(q))
FFloor(a)  == LET k == NToInt(NDrop(Mag(a), FL))                    \* a TLC integer
              IN  IF a[1] >= 0 THEN k
                  ELSE IF NTrim(SubSeq(Mag(a), 1, IF Len(Mag(a)) < FL THEN Len(Mag(a)) ELSE FL)) = <<>>
                       THEN -k ELSE -k - 1
FLe(a, b) == FCmp(a, b) <= 0
FLt(a, b) == FCmp(a, b) < 0
FMin(a, b) == IF FLe(a, b) THEN a ELSE b
FMax(a, b) == IF FLe(a, b) THEN b ELSE a

RECURSIVE FPow(_, _)
FPow(a, k) == IF k = 0 THEN FOne ELSE FMul(a, FPow(a, k - 1))

\* natural logarithm: a = 2^k * m with m in [3/4, 3/2), ln m = 2 atanh((m-1)/(m+1))
RECURSIVE FAtanhC(_, _, _, _)
FAtanhC(p, z2, k, acc) == IF p[1] = 0 THEN acc
   ELSE FAtanhC(FMul(p, z2), z2, k + 2, FAdd(acc, FDiv(p, FInt(k))))
FLnM(m) == LET z == FDiv(FSub(m, FOne), FAdd(m, FOne))
           IN  FMul(FInt(2), FAtanhC(z, FMul(z, z), 1, FZero))
FLn2 == FMul(FInt(2), FLnM(FSqrt(FInt(2))))
RECURSIVE FLnK(_, _)
FLnK(a, k) == IF FLe(FRat(3, 2), a) THEN FLnK(FDiv(a, FInt(2)), k + 1)
              ELSE IF FLt(a, FRat(3, 4)) THEN FLnK(FMul(a, FInt(2)), k - 1)
              ELSE FAdd(FMul(FInt(k), FLn2), FLnM(a))
FLn(a) == FLnK(a, 0)                                                \* a > 0

\* exponential: |a| halved until below 1/16, Taylor series, squared back
RECURSIVE FExpT(_, _, _, _)
FExpT(x, p, k, acc) == IF p[1] = 0 THEN acc
   ELSE FExpT(x, FDiv(FMul(p, x), FInt(k)), k + 1, FAdd(acc, p))
RECURSIVE FExpP(_)
FExpP(x) == IF FLt(x, FRat(1, 16)) THEN FExpT(x, FOne, 1, FZero)
            ELSE LET h == FExpP(FDiv(x, FInt(2))) IN FMul(h, h)
FExp(a) == IF a[1] < 0 THEN FDiv(FOne, FExpP(FNeg(a))) ELSE FExpP(a)
\* a to the real power y, for a >= 0
FPowR(a, y) == IF a[1] = 0 THEN FZero ELSE FExp(FMul(y, FLn(a)))

----------------------------------------------------------------------------
(* Vectors (sequences) and matrices (sequences of rows).                   *)

\* the identity; the Java version turns lazily evaluated functions into tuples
FForce(v) == v
RECURSIVE FSumC(_, _, _)
FSumC(v, i, acc) == IF i > Len(v) THEN acc ELSE FSumC(v, i + 1, FAdd(acc, v[i]))
FSum(v)       == FSumC(v, 1, FZero)
FVAdd(u, v)   == [i \in 1..Len(u) |-> FAdd(u[i], v[i])]
FVSub(u, v)   == [i \in 1..Len(u) |-> FSub(u[i], v[i])]
FScale(k, v)  == [i \in 1..Len(v) |-> FMul(k, v[i])]
FDot(u, v)    == FSum([i \in 1..Len(u) |-> FMul(u[i], v[i])])
FMatVec(M, v) == [i \in 1..Len(M) |-> FDot(M[i], v)]
FQuad(u, M, v) == FDot(u, FMatVec(M, v))
FTrans(M)     == FForce([j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]])
FMatMul(A, B) == LET BT == FTrans(B) IN [i \in 1..Len(A) |-> FMatVec(BT, A[i])]
FMAdd(A, B)   == FForce([i \in 1..Len(A) |-> FVAdd(A[i], B[i])])
FMSub(A, B)   == FForce([i \in 1..Len(A) |-> FVSub(A[i], B[i])])
FMScale(k, A) == FForce([i \in 1..Len(A) |-> FScale(k, A[i])])
FMean(v)      == FDiv(FSum(v), FInt(Len(v)))
FNorm1(v)     == FSum([i \in 1..Len(v) |-> FAbs(v[i])])
FMaxAbs(v)    == LET RECURSIVE go(_, _)
                     go(i, m) == IF i > Len(v) THEN m ELSE go(i + 1, FMax(m, FAbs(v[i])))
                 IN  go(1, FZero)
\* largest absolute difference of two vectors
FVDist(u, v)  == FMaxAbs(FVSub(u, v))

\* ascending insertion sort
RECURSIVE FInsert(_, _)
FInsert(x, s) == IF s = <<>> THEN <<x>>
                 ELSE IF FLe(x, s[1]) THEN <<x>> \o s
                 ELSE <<s[1]>> \o FInsert(x, Tail(s))
RECURSIVE FSort(_)
FSort(v) == IF v = <<>> THEN v ELSE FInsert(v[1], FSort(Tail(v)))

\* Gauss-Jordan with partial pivoting on the augmented rows [A | B];
\* <<>> when A is singular (a pivot of magnitude <= 10^-18).
FPivRow(M, c) == CHOOSE i \in c..Len(M) : \A j \in c..Len(M) :
                    \/ FLt(FAbs(M[j][c]), FAbs(M[i][c]))
                    \/ FCmp(FAbs(M[j][c]), FAbs(M[i][c])) = 0 /\ i <= j
FTinyPivot == Mk(1, NInt(1000000))
RECURSIVE FGauss(_, _)
FGauss(M, c) ==
  IF c > Len(M) THEN M
  ELSE LET p  == FPivRow(M, c)
           Mp == [i \in 1..Len(M) |-> IF i = c THEN M[p] ELSE IF i = p THEN M[c] ELSE M[i]]
       IN  IF FLe(FAbs(Mp[c][c]), FTinyPivot) THEN <<>>
           ELSE LET r == [j \in 1..Len(Mp[c]) |-> FDiv(Mp[c][j], Mp[c][c])]
                IN  FGauss([i \in 1..Len(M) |-> IF i = c THEN r
                            ELSE FVSub(Mp[i], FScale(Mp[i][c], r))], c + 1)
FSolve(A, B) == LET n == Len(A)
                    G == FGauss([i \in 1..n |-> A[i] \o B[i]], 1)
                IN  IF G = <<>> THEN <<>>
                    ELSE [i \in 1..n |-> SubSeq(G[i], n + 1, Len(G[i]))]
FIdent(n)    == FForce([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN FOne ELSE FZero]])
FInverse(A)  == FSolve(A, FIdent(Len(A)))
=============================================================================
