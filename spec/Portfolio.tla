------------------------------- MODULE Portfolio -------------------------------
(***************************************************************************)
(* What a portfolio problem is, which portfolios are admissible for it,    *)
(* what each risk measure and objective is worth, and when a portfolio is  *)
(* optimal.  Nothing here refers to how the implementation solves it.      *)
(*                                                                         *)
(* A problem P is a record                                                 *)
(*   n                number of assets                                     *)
(*   mu               expected returns (<<>> when there are none)          *)
(*   cov              covariance matrix (<<>> for the history based ones)  *)
(*   R, bench, freq, beta    return history and its parameters             *)
(*   haslo, lo, hashi, hi    bounds (0/1 flags: is there a bound?)         *)
(*   cons             sequence of linear constraints [a, rel, b]           *)
(*   norms            sequence of [p, b]: the p-norm (1 or 2) is <= b      *)
(*   terms            sequence of added objective terms                    *)
(*   budget           "one", "zero" or "free"                              *)
(*   obj, par         base objective and its parameter                     *)
(*   tgt, t           target kind ("none", "ret", "vol", "semi", "cvar",   *)
(*                    "cdar") and value                                    *)
(***************************************************************************)
EXTENDS Fx

----------------------------------------------------------------------------
(* Risk measures.                                                          *)

Ret(P, w) == FDot(P.mu, w)
Var(P, w) == FQuad(w, P.cov, w)
PortRets(P, w) == FMatVec(P.R, w)

\* mean squared shortfall below the benchmark, per period
Semivar(P, w) ==
  LET r == PortRets(P, w)
      d == [i \in 1..Len(r) |-> FMin(FSub(r[i], P.bench), FZero)]
  IN  FDiv(FDot(d, d), FInt(Len(r)))

\* Mean of the worst (1-beta) share of the values (the last one pro rata):
\* equals the Rockafellar-Uryasev minimum over alpha.
TailMean(x, beta) ==
  LET T  == Len(x)
      s  == FSort(x)                                     \* ascending
      m  == FMul(FInt(T), FSub(FOne, beta))              \* tail size, > 0
      k0 == FFloor(m)
      k  == IF k0 >= T THEN T ELSE k0
      top  == FSum([i \in 1..k |-> s[T + 1 - i]])
      rest == IF k = T THEN FZero ELSE FMul(FSub(m, FInt(k)), s[T - k])
  IN  FDiv(FAdd(top, rest), m)
Cvar(P, w) == LET r == PortRets(P, w) IN TailMean([i \in 1..Len(r) |-> FNeg(r[i])], P.beta)

\* drawdowns of the uncompounded cumulative return, from a start at zero
RECURSIVE DrawdownsC(_, _, _)
DrawdownsC(r, i, acc) ==
  IF i > Len(r) THEN acc
  ELSE LET prev == IF i = 1 THEN FZero ELSE acc[i - 1]
       IN  DrawdownsC(r, i + 1, Append(acc, FMax(FSub(prev, r[i]), FZero)))
Cdar(P, w) == TailMean(DrawdownsC(PortRets(P, w), 1, <<>>), P.beta)

----------------------------------------------------------------------------
(* Documented objective functions (as quantities to be minimised).         *)

Term(P, t, w) ==
  CASE t.kind = "L2"   -> FMul(t.k, FDot(w, w))
    [] t.kind = "tc"   -> FMul(t.k, FNorm1(FVSub(w, t.v)))
    [] t.kind = "lin"  -> FMul(t.k, FDot(t.v, w))
    [] t.kind = "tea"  -> FMul(t.k, FQuad(FVSub(w, t.v), t.M, FVSub(w, t.v)))
    [] t.kind = "tep"  -> \* ex-post tracking error: summed squared deviation of
                          \* the active returns from their mean
                          LET x == FVSub(FMatVec(t.M, w), t.v)
                              m == FMean(x)
                              d == [i \in 1..Len(x) |-> FSub(x[i], m)]
                          IN  FMul(t.k, FDot(d, d))
    [] t.kind = "var"  -> FMul(t.k, FQuad(w, t.M, w))

RECURSIVE TermsC(_, _, _, _)
TermsC(P, w, i, acc) == IF i > Len(P.terms) THEN acc
                        ELSE TermsC(P, w, i + 1, FAdd(acc, Term(P, P.terms[i], w)))
Terms(P, w) == TermsC(P, w, 1, FZero)

Half == FRat(1, 2)
Base(P, w) ==
  CASE P.obj = "var"    -> Var(P, w)
    [] P.obj = "ret"    -> FNeg(Ret(P, w))
    [] P.obj = "qu"     -> FSub(FMul(FMul(Half, P.par), Var(P, w)), Ret(P, w))
    [] P.obj = "semi"   -> Semivar(P, w)
    [] P.obj = "squ"    -> FSub(FMul(FMul(Half, P.par), Semivar(P, w)), FDiv(Ret(P, w), P.freq))
    [] P.obj = "cvar"   -> Cvar(P, w)
    [] P.obj = "cdar"   -> Cdar(P, w)
    [] P.obj = "zero"   -> FZero
    [] P.obj = "sharpe" -> FNeg(FDiv(FSub(Ret(P, w), P.par), FSqrt(Var(P, w))))
Obj(P, w) == IF P.obj = "sharpe" THEN Base(P, w) ELSE FAdd(Base(P, w), Terms(P, w))

----------------------------------------------------------------------------
(* Admissible portfolios.  Every operator takes a slack e: e > 0 forgives   *)
(* that much, e < 0 demands a margin.                                      *)

Eps(k) == FRat(1, k)
BoundsOK(P, w, e) ==
  \A i \in 1..P.n : /\ P.haslo[i] = 1 => FLe(FSub(P.lo[i], e), w[i])
                    /\ P.hashi[i] = 1 => FLe(w[i], FAdd(P.hi[i], e))
BudgetOK(P, w, e) ==
  CASE P.budget = "one"  -> FLe(FAbs(FSub(FSum(w), FOne)), FAbs(e))
    [] P.budget = "zero" -> FLe(FAbs(FSum(w)), FAbs(e))
    [] P.budget = "free" -> TRUE
ConOK(c, w, e) ==
  LET x == FDot(c.a, w)
  IN  CASE c.rel = "le" -> FLe(x, FAdd(c.b, e))
        [] c.rel = "ge" -> FLe(FSub(c.b, e), x)
        [] c.rel = "eq" -> FLe(FAbs(FSub(x, c.b)), FAbs(e))
NormOK(c, w, e) ==
  IF c.p = 1 THEN FLe(FNorm1(w), FAdd(c.b, e)) ELSE FLe(FSqrt(FDot(w, w)), FAdd(c.b, e))
ConsOK(P, w, e) == /\ \A i \in 1..Len(P.cons) : ConOK(P.cons[i], w, e)
                   /\ \A i \in 1..Len(P.norms) : NormOK(P.norms[i], w, e)
\* risk targets are compared on the scale of the target itself
Risk(P, w) == CASE P.tgt = "vol"  -> FSqrt(FMax(FZero, Var(P, w)))
                [] P.tgt = "semi" -> FSqrt(FMul(P.freq, Semivar(P, w)))
                [] P.tgt = "cvar" -> Cvar(P, w)
                [] P.tgt = "cdar" -> Cdar(P, w)
TargetOK(P, w, e) ==
  CASE P.tgt = "none" -> TRUE
    [] P.tgt = "ret"  -> FLe(FSub(P.t, e), Ret(P, w))
    [] OTHER          -> FLe(Risk(P, w), FAdd(P.t, e))
Admissible(P, w, e) == BudgetOK(P, w, e) /\ BoundsOK(P, w, e) /\ ConsOK(P, w, e) /\ TargetOK(P, w, e)

\* admissible with room: inequality constraints hold with margin m
Roomy(P, w, m) ==
  /\ BudgetOK(P, w, FRat(1, 1000000))
  /\ \A i \in 1..P.n : /\ P.haslo[i] = 1 => FLe(FAdd(P.lo[i], m), w[i])
                       /\ P.hashi[i] = 1 => FLe(FAdd(w[i], m), P.hi[i])
  /\ \A i \in 1..Len(P.cons) :
        ConOK(P.cons[i], w, IF P.cons[i].rel = "eq" THEN FRat(1, 1000000) ELSE FNeg(m))
  /\ \A i \in 1..Len(P.norms) : NormOK(P.norms[i], w, FNeg(m))
  /\ TargetOK(P, w, FNeg(m))
  /\ P.obj = "sharpe" => FLe(FAdd(P.par, m), Ret(P, w))

----------------------------------------------------------------------------
(* Probe portfolios: the set over which optimality is quantified.          *)
(* Lattice points, exchanges of weight between assets at several scales,   *)
(* and, if given, candidate portfolios (wits) together with mixtures       *)
(* toward them.  Where candidates come from does not matter: each is       *)
(* checked for admissibility before it counts.                             *)

Tup(n, S) == [1..n -> S]
RECURSIVE ISum(_, _)
ISum(f, n) == IF n = 0 THEN 0 ELSE f[n] + ISum(f, n - 1)
LastFree(n, S, tot) ==           \* integer points with the given total
  { f \in { [i \in 1..n |-> IF i < n THEN g[i] ELSE tot - ISum(g, n - 1)] : g \in Tup(n - 1, S) } : TRUE }
Scaled(n, F, k) == { [i \in 1..n |-> FRat(f[i], k)] : f \in F }
InRange(n, F, lo, hi) == { f \in F : f[n] >= lo /\ f[n] <= hi }
Step(n) == CASE n = 2 -> 40 [] n = 3 -> 20 [] n = 4 -> 10 [] OTHER -> 5
StepS(n) == CASE n = 2 -> 40 [] n = 3 -> 10 [] n = 4 -> 4 [] OTHER -> 2
LongGrid(n)  == Scaled(n, InRange(n, LastFree(n, 0..Step(n), Step(n)), 0, Step(n)), Step(n))
ShortGrid(n) == LET k == StepS(n) IN Scaled(n, InRange(n, LastFree(n, (-k)..k, k), -k, k), k)
NeutGrid(n)  == LET k == StepS(n) IN Scaled(n, InRange(n, LastFree(n, (-k)..k, 0), -k, k), k)
FreeGrid(n)  == LET k == CASE n = 2 -> 10 [] n = 3 -> 5 [] OTHER -> 2
                IN  Scaled(n, Tup(n, (-k)..k), k)
\* constant-level definitions are evaluated once by TLC
G1_2 == LongGrid(2)   G1_3 == LongGrid(3)   G1_4 == LongGrid(4)
GS_2 == ShortGrid(2)  GS_3 == ShortGrid(3)  GS_4 == ShortGrid(4)
GN_2 == NeutGrid(2)   GN_3 == NeutGrid(3)   GN_4 == NeutGrid(4)
GF_2 == FreeGrid(2)   GF_3 == FreeGrid(3)   GF_4 == FreeGrid(4)
Shorting(P) == \E i \in 1..P.n : P.haslo[i] = 0 \/ FSign(P.lo[i]) < 0
Lattice(P) ==
  CASE P.n > 4 -> {}
    [] P.budget = "one" /\ ~Shorting(P) -> (CASE P.n = 2 -> G1_2 [] P.n = 3 -> G1_3 [] P.n = 4 -> G1_4)
    [] P.budget = "one" /\ Shorting(P)  -> (CASE P.n = 2 -> GS_2 [] P.n = 3 -> GS_3 [] P.n = 4 -> GS_4)
    [] P.budget = "zero"                -> (CASE P.n = 2 -> GN_2 [] P.n = 3 -> GN_3 [] P.n = 4 -> GN_4)
    [] P.budget = "free"                -> (CASE P.n = 2 -> GF_2 [] P.n = 3 -> GF_3 [] P.n = 4 -> GF_4)

Scales == {FRat(1, 5), FRat(1, 20), FRat(1, 100), FRat(1, 1000)}
Exchange(P, w) ==
  { [k \in 1..P.n |-> IF k = i THEN FAdd(w[k], h) ELSE IF k = j THEN FSub(w[k], h) ELSE w[k]]
      : i \in 1..P.n, j \in 1..P.n, h \in Scales }
Single(P, w) == IF P.budget # "free" THEN {}
  ELSE { [k \in 1..P.n |-> IF k = i THEN FAdd(w[k], FMul(FInt(s), h)) ELSE w[k]]
           : i \in 1..P.n, s \in {-1, 1}, h \in Scales }
Mix(w, v, s) == [i \in 1..Len(w) |-> FAdd(w[i], FMul(s, FSub(v[i], w[i])))]
Shares == {FRat(1, 2), FRat(1, 8), FRat(1, 64)}
Toward(w, V) == { Mix(w, v, s) : v \in V, s \in Shares }
Range(s) == { s[i] : i \in 1..Len(s) }

Probes(P, w, wits) ==
  LET W == Range(wits) IN Lattice(P) \cup Exchange(P, w) \cup Single(P, w) \cup W \cup Toward(w, W)
AdmissibleProbes(P, w, wits) == { v \in Probes(P, w, wits) : Admissible(P, v, FRat(1, 100000000)) }
\* probes that keep a distance m from every inequality (for answers of solvers
\* that are only that accurate in the constraints)
InnerProbes(P, w, wits, m) == { v \in Probes(P, w, wits) : Roomy([P EXCEPT !.obj = "zero"], v, m) }

\* how much better the best probe is than w (negative or zero: none is)
RECURSIVE BestOf(_, _)
BestOf(P, S) == LET v == CHOOSE x \in S : TRUE
                    o == Obj(P, v)
                    r == S \ {v}
                IN  IF r = {} THEN o ELSE FMin(o, BestOf(P, r))
\* the objectives of all admissible probes must not be below Obj(w) - tol
Optimal(P, w, probes, tol) ==
  LET bar == FSub(Obj(P, w), tol) IN \A v \in probes :
       \/ P.obj = "sharpe" /\ FSign(Var(P, v)) <= 0
       \/ FLe(bar, Obj(P, v))
=============================================================================
