--------------------------------- MODULE EstTrace ---------------------------------
(***************************************************************************)
(* Calls of the return and risk estimators on one data set.                *)
(***************************************************************************)
EXTENDS Estimators
VARIABLES tr, l,
          m,     \* data: [n, P, R, inf, mp, mr]
          last,  \* the previous answer
          sh     \* history held by the shrinkage object, <<>> without one
vars == <<tr, l, m, last, sh>>
Ev == Traces[tr].ev[l]
G(e) == B(e.log)
Hist(e) == IF e.input = "R" THEN m.R ELSE Returns(m.P, G(e))
Dates(e) == IF e.input = "R" THEN [t \in 1..Len(m.R) |-> t] ELSE ReturnDates(m.P, G(e))
\* the market's returns at the given periods; mp, mr: sequences of [d, v]
MarketAt(e, dates) ==
  LET s == IF e.input = "R" THEN m.mr ELSE m.mp
      at(d) == {k \in 1..Len(s) : s[k].d = d}
  IN  [t \in 1..Len(dates) |->
        LET ks == at(dates[t]) IN
        IF ks = {} THEN <<>>
        ELSE LET k == CHOOSE x \in ks : TRUE IN
             IF e.input = "R" THEN s[k].v
             ELSE IF k = 1 THEN <<>>
             ELSE RetRow(<<s[k - 1].v>>, <<s[k].v>>, G(e))[1]]
Keeping(k) == SelectSeq([t \in 1..Len(k) |-> t], LAMBDA t : k[t] = 1)
Complete(X) == SelectSeq(X, LAMBDA r : \A j \in 1..Len(r) : Here(r[j]))
Enough(X) == X # <<>> /\ Overlap(X, 3)
VClose(e, v) == Len(e.val) = Len(v) /\ \A j \in 1..Len(v) : Close(e.val[j], v[j], 10000000)
HClose(A, X) ==      \* histories, missing where missing
  /\ Len(A) = Len(X)
  /\ \A t \in 1..Len(X) : Len(A[t]) = Len(X[t]) /\ \A j \in 1..Len(X[t]) :
       IF Here(X[t][j]) THEN Close(A[t][j], X[t][j], 1000000000) ELSE A[t][j] = <<>>
Failed(e, p) == C(e.op \o " failed with " \o e.exc, p, e.out = "ok")
Labels(e, p) == C("the answer of " \o e.op \o " is not labelled by the assets", p \cup {"C23"}, e.out = "ok" => B(e.labels))
Warned(e, expect) == C("data with gaps or infinities: warned " \o (IF expect THEN "not" ELSE "without reason"), {"C17"},
                       e.out = "ok" => (B(e.warn) = expect))
Vector(e, v) == Failed(e, {"C17"}) \cup Labels(e, {"C17"})
                \cup C(e.op \o " return is not the documented formula", {"C17"}, e.out = "ok" => VClose(e, v))
\* owner: the property of the formula
Matrix(e, M, owner) ==
  LET sc == Scale(M)
      p == IF Above(M, FDiv(sc, FPow(FInt(10), 11))) THEN {owner} ELSE {"C19"}
  IN  Failed(e, p) \cup Labels(e, {owner})
      \cup C(e.op \o " covariance is not the documented formula (repaired when not positive semidefinite)", p,
             e.out = "ok" => Repaired(e.val, M, e.fix))
\* shr: [F, S, sure, delta]
Shrunk(e, X, s) ==
  LET d == IF s.sure THEN s.delta ELSE e.delta
  IN  IF e.out # "ok" THEN Failed(e, {"C20"})
      ELSE C("the shrinkage constant is not in [0,1]", {"C20"}, e.delta # <<>> /\ FLe(FZero, e.delta) /\ FLe(e.delta, FOne))
           \cup C("the shrinkage constant is not the published one", {"C20"}, s.sure => Close(e.delta, s.delta, 1000000))
           \cup (IF e.delta = <<>> THEN {} ELSE Matrix(e, FMScale(e.freq, Blend(d, s.F, s.S)), "C20"))
           \cup C("the sample covariance exposed is not that of the data", {"C20"}, NearM(e.S, Sample(X), Scale(Sample(X)), 1000000000))
Shape(X, k) == Wid(X) >= 2 /\ Len(X) >= k /\ Enough(X) /\ \A j \in 1..Wid(X) : FLt(FRat(1, 1000000000), PairCov(HCol(X, j), HCol(X, j)))
\* computed on the history scaled to 1, for precision
Plan(e, X) ==
  LET big == FMax(FRat(1, 1000000), MaxAbsM(Filled(X)))
      k == FDiv(FOne, big)
      Y == FForce([t \in 1..Len(X) |-> [j \in 1..Wid(X) |-> IF Here(X[t][j]) THEN FMul(k, X[t][j]) ELSE <<>>]])
      Z == Filled(Y)
      s == CASE e.kind = "manual" -> LET S == Sample(Y) IN [F |-> Identity(S), S |-> S, sure |-> TRUE, delta |-> e.given]
             [] e.kind = "lwv" -> LWVariance(Z)
             [] e.kind = "lwf" -> LWFactor(Z)
             [] e.kind = "lwc" -> LWCorrelation(Z, Sample(Y))
             [] e.kind = "oas" -> OAS(Z)
  IN  [s EXCEPT !.F = FMScale(Sq(big), s.F), !.S = FMScale(Sq(big), s.S)]
ShrunkBy(e, X) == IF Shape(X, 3) THEN Shrunk(e, X, Plan(e, X)) ELSE {}
Dispatched(e, X) ==
  IF ~Shape(X, 3) THEN {}
  ELSE LET s == Plan(e, X) IN
       IF s.sure THEN Matrix(e, FMScale(e.freq, Blend(s.delta, s.F, s.S)), "C20") ELSE Failed(e, {"C20"})
Lambda(M) == LET sc == Scale(M) IN IF Above(M, FNeg(FDiv(sc, FPow(FInt(10), 11)))) THEN "pos"
                                   ELSE IF Above(M, FDiv(sc, FPow(FInt(10), 11))) THEN "border" ELSE "neg"
Body(e) ==
  IF e.op = "data" THEN {} ELSE IF m = <<>> THEN {} ELSE
  CASE e.op = "again" ->
         C("the same call on the same data gave another answer", {"C21"}, e.val = last)
    [] e.op \in {"badmodel", "badtarget"} ->
         C("an unknown method was not refused with NotImplementedError", {"C17", "C18", "C20"}, e.exc = "NotImplementedError")
    [] e.op = "fix" ->
         IF Lambda(e.M) = "neg" /\ B(e.badmethod)
         THEN C("an unknown repair method was not refused", {"C19"}, e.exc = "NotImplementedError")
         ELSE IF B(e.badmethod) THEN {}
         ELSE Failed(e, {"C19"})
              \cup C("the repair changed the labels or the type of the matrix", {"C19", "C23"}, e.out = "ok" => B(e.labels))
              \cup (IF e.out # "ok" THEN {}
                    ELSE IF Lambda(e.M) = "pos" THEN C("a positive definite matrix was changed", {"C19"}, e.val = e.M)
                    ELSE C("the repaired matrix is not the documented one", {"C19"}, Repaired(e.val, e.M, e.fix)))
    [] e.op = "corr" ->
         Failed(e, {"C18"}) \cup Labels(e, {"C18"})
         \cup C("cov_to_corr is not the correlation matrix", {"C18"},
                e.out = "ok" => FinM(e.val, Len(e.M)) /\ NearM(e.val, Corr(e.M), FOne, 1000000000))
    [] e.op = "tocov" ->
         Failed(e, {"C18"}) \cup Labels(e, {"C18"})
         \cup C("corr_to_cov is not the covariance matrix", {"C18"},
                e.out = "ok" => FinM(e.val, Len(e.M)) /\ NearM(e.val, CovOf(e.M, e.sd), Scale(CovOf(e.M, e.sd)), 1000000000))
    [] m.inf ->
         IF e.op \in {"mean", "ema", "capm"} THEN Warned(e, TRUE) ELSE {}
    [] e.op = "toret" ->
         Failed(e, {"C17"})
         \cup (IF e.out # "ok" THEN {}
               ELSE C("returns_from_prices is not the change of the prices", {"C17"}, HClose(e.val, Returns(m.P, G(e))))
                    \cup C("the returns are not labelled by their dates and assets", {"C17", "C23"},
                           B(e.labels) /\ e.dates = ReturnDates(m.P, G(e))))
    [] e.op = "toprice" ->
         Failed(e, {"C17"}) \cup Labels(e, {"C17"})
         \cup C("prices_from_returns does not accumulate the returns from one", {"C17"}, e.out = "ok" => HClose(e.val, PricesOf(m.R, G(e))))
    [] e.op = "there" ->
         Failed(e, {"C17"})
         \cup C("returns and back does not give the prices relative to their start", {"C17"},
                e.out = "ok" => HClose(e.val, PricesOf(Returns(m.P, G(e)), G(e))))
    [] e.op = "mean" ->
         LET X == Hist(e) IN
         IF ~Enough(X) THEN {} ELSE Vector(e, MeanHist(X, e.freq, B(e.comp))) \cup Warned(e, Gaps(X))
    [] e.op = "ema" ->
         LET X == Hist(e) IN
         IF ~Enough(X) THEN {} ELSE Vector(e, Ema(X, e.freq, B(e.comp), e.span)) \cup Warned(e, Gaps(X))
    [] e.op = "capm" ->
         LET X == Hist(e)
             mk == IF B(e.market) THEN MarketAt(e, Dates(e)) ELSE EqualMarket(X)
             Y == [t \in 1..Len(X) |-> X[t] \o <<mk[t]>>]
         IN  IF ~Enough(X) \/ ~Enough(Y) \/ FLe(PairCov(mk, mk), FRat(1, 100000000)) THEN {}
             ELSE Vector(e, Capm(X, mk, e.rf, e.freq, B(e.comp))) \cup Warned(e, Gaps(Y))
    [] e.op = "sample" ->
         LET X == Hist(e) IN IF ~Enough(X) THEN {} ELSE Matrix(e, FMScale(e.freq, Sample(X)), "C18")
    [] e.op = "semi" ->
         LET X == Hist(e) IN IF ~Enough(X) THEN {} ELSE Matrix(e, FMScale(e.freq, Semi(X, e.bench)), "C18")
    [] e.op = "exp" ->
         LET X == Hist(e) IN IF ~Enough(X) THEN {} ELSE Matrix(e, FMScale(e.freq, ExpCov(X, e.span)), "C18")
    [] e.op = "mcd" ->  \* the covariance of a majority of the complete periods
         LET X == Complete(Hist(e))
             Y == FForce([i \in 1..Len(Keeping(e.keep)) |-> X[Keeping(e.keep)[i]]])
             h == Len(Y)
         IN  IF Len(X) # Len(e.keep) THEN {}
             ELSE C("the robust covariance keeps less than half of the periods", {"C18"}, 2 * h > Len(X))
                  \cup Matrix(e, FMScale(e.freq, FMScale(FDiv(FInt(h - 1), FInt(h)), Sample(Y))), "C18")
    [] e.op = "shnew" -> IF Shape(Hist(e), 3) THEN Failed(e, {"C20"}) ELSE {}
    [] e.op = "riskm" -> Dispatched(e, Used(Hist(e)))
    [] e.op \in {"shrunk", "lw"} -> IF sh = <<>> THEN {} ELSE ShrunkBy(e, sh)
    [] OTHER -> {}
Clauses(e) == Judge(e, Body(e))
Info(e) == [n |-> 0]
Verdict(e) == [tr |-> tr, l |-> l, op |-> e.op, out |-> e.out, bad |-> Clauses(e), info |-> Info(e)]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ m = <<>> /\ last = <<>> /\ sh = <<>>
Next == /\ l <= Len(Traces[tr].ev)
        /\ PrintT("EV " \o ToJson(Verdict(Ev)))
        /\ l' = l + 1 /\ tr' = tr
        /\ m' = IF Ev.op = "data" THEN [n |-> Ev.n, P |-> Ev.P, R |-> Ev.R, inf |-> B(Ev.inf), mp |-> Ev.mp, mr |-> Ev.mr] ELSE m
        /\ last' = IF Ev.op \in {"data", "malformed"} THEN last ELSE Ev.val
        /\ sh' = IF Ev.op = "shnew" THEN IF Ev.out = "ok" THEN Used(Hist(Ev)) ELSE <<>> ELSE sh
=============================================================================
