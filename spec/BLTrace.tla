--------------------------------- MODULE BLTrace ---------------------------------
(***************************************************************************)
(* Black-Litterman: what the inputs mean, what the posterior is, and what  *)
(* a model object answers in every order of calls.                         *)
(***************************************************************************)
EXTENDS Trace
VARIABLES tr, l,
          m      \* the model: [P, Q, pi, om, S, tau, ra, n, post, cov, x, held] or <<>>
vars == <<tr, l, m>>
Ev == Traces[tr].ev[l]
K == 100000000         \* relative accuracy demanded: 1e-8

----------------------------------------------------------------------------
(* Meaning of the inputs.                                                  *)
Views(e) ==
  IF e.view \in {"dict", "series"}
  THEN [Q |-> [k \in 1..Len(e.vidx) |-> e.vval[k]],
        P |-> [k \in 1..Len(e.vidx) |-> [i \in 1..e.n |-> IF i = e.vidx[k] THEN FOne ELSE FZero]]]
  ELSE [Q |-> e.Q, P |-> IF e.P = <<>> THEN FIdent(e.n) ELSE e.P]
MarketPrior(caps, ra, S, rf) ==
  LET w == FScale(FDiv(FOne, FSum(caps)), caps)
      x == FMatVec(S, w)
  IN  [i \in 1..Len(x) |-> FAdd(FMul(ra, x[i]), rf)]
Prior(e) ==
  CASE e.pi = "none" -> [i \in 1..e.n |-> FZero]
    [] e.pi = "equal" -> [i \in 1..e.n |-> FRat(1, e.n)]
    [] e.pi \in {"market", "marketdict", "marketarr"} -> MarketPrior(e.caps, e.ra, e.S, e.rf)
    [] OTHER -> e.pival
ViewVar(P, S) == [k \in 1..Len(P) |-> FQuad(P[k], S, P[k])]
Million == FMul(FInt(1000), FInt(1000))
Idz(conf, P, S, tau) ==
  LET v == ViewVar(P, S)
  IN  [k \in 1..Len(P) |-> IF FSign(conf[k]) = 0 THEN Million
         ELSE FMul(FMul(tau, FDiv(FSub(FOne, conf[k]), conf[k])), v[k])]
Omega(e, P) ==
  CASE e.omega \in {"none", "default"} -> Diag(FScale(e.tau, ViewVar(P, e.S)))
    [] e.omega \in {"idz", "idzlist"} -> Diag(Idz(e.conf, P, e.S, e.tau))
    [] OTHER -> e.om

Unit(x) == FSign(x) >= 0 /\ FLe(x, FOne)
\* requests that cannot be interpreted
Invalid(e) ==
  \/ FSign(e.tau) <= 0 \/ FLt(FOne, e.tau) \/ FSign(e.ra) <= 0
  \/ \E k \in 1..Len(e.vidx) : e.vidx[k] = 0
  \/ e.omega \in {"idz", "idzlist"} /\ \E k \in 1..Len(e.conf) : ~Unit(e.conf[k])
  \/ e.bad \in {"nocaps", "noconf", "omegadim", "pdim", "pidim", "qtype", "viewtype", "pitype", "omtype", "ptype", "conflen"}

----------------------------------------------------------------------------
(* The posterior (master formula).                                         *)
Model(e) ==
  LET v  == Views(e)
      P  == v.P
      pi == Prior(e)
      om == Omega(e, P)
      T  == FMScale(e.tau, FMatMul(e.S, FTrans(P)))           \* n x k
      A  == FMAdd(FMatMul(P, T), om)
      d  == FVSub(v.Q, FMatVec(P, pi))
      x  == FSolve(A, [k \in 1..Len(P) |-> <<d[k]>> \o [i \in 1..e.n |-> T[i][k]]])   \* k x (1+n)
      ok == x # <<>>
      post == IF ok THEN FVAdd(pi, FMatVec(T, Flat(x))) ELSE <<>>
      MS == IF ok THEN [k \in 1..Len(P) |-> SubSeq(x[k], 2, e.n + 1)] ELSE <<>>
      cov == IF ok THEN FMAdd(e.S, FMSub(FMScale(e.tau, e.S), FMatMul(T, MS))) ELSE <<>>
      y  == IF ok THEN FSolve(e.S, Col(post)) ELSE <<>>
  IN  [n |-> e.n, S |-> e.S, P |-> P, Q |-> v.Q, pi |-> pi, om |-> om, post |-> post, cov |-> cov,
       raw |-> IF y = <<>> THEN <<>> ELSE Flat(y), sing |-> ok /\ y = <<>>, held |-> <<>>]

NewClauses(e) ==
  IF Invalid(e)
  THEN C("a model with invalid inputs (" \o e.bad \o ") was built", {"C13"}, e.out # "ok")
  ELSE LET M == Model(e) IN
       C("a valid model was refused with " \o e.exc, {"C13"}, e.out = "ok")
       \cup (IF e.out # "ok" THEN {} ELSE
            C("the views vector is not as documented", {"C13"}, NearV(e.oQ, M.Q, FAdd(FRat(1, 100), FMaxAbs(M.Q)), K))
            \cup C("the picking matrix is not as documented", {"C13"}, NearM(e.oP, M.P, FOne, K))
            \cup C("the prior is not as documented", {"C13"}, NearV(e.opi, M.pi, FAdd(FRat(1, 100), FMaxAbs(M.pi)), K))
            \cup C("the view uncertainty is not as documented", {"C13"},
                   NearM(e.oom, M.om, FAdd(FRat(1, 10000), MaxAbsM(M.om)), K)))

\* cancellation: a nearly zero sum of raw weights is not compared
SumOK(raw) == raw # <<>> /\ FLe(FDiv(FNorm1(raw), FInt(50)), FAbs(FSum(raw)))
Weights(M) == FScale(FDiv(FOne, FSum(M.raw)), M.raw)
\* for a singular covariance: the least-squares solution of S x = mu, scaled to sum one;
\* its normal equations say that S S w and S mu are parallel
Parallel(u, v, k) ==
  LET uu == FDot(u, u) vv == FDot(v, v) uv == FDot(u, v)
  IN  FLe(FSub(FMul(uu, vv), FMul(uv, uv)), FMul(FRat(1, k), FMul(uu, vv)))

Props == {"C12"} \cup (IF l > 2 THEN {"C21"} ELSE {})
Labels(e) == C("results are not labelled by the tickers", {"C12", "C23"}, B(e.keys))
Held(e) == C("the held weights changed in a call that does not set weights", {"C12", "C04"}, e.held = m.held)
AnswerClauses(e) ==
  IF m.post = <<>> THEN {} ELSE
  CASE e.op = "rets" ->
         C("bl_returns failed with " \o e.exc, {"C12"}, e.out = "ok")
         \cup (IF e.out # "ok" THEN {} ELSE Labels(e) \cup
              C("posterior returns are not those of the master formula", {"C12"},
                NearV(e.val, m.post, FAdd(FRat(1, 100), FMaxAbs(m.post)), K))) \cup Held(e)
    [] e.op = "cov" ->
         C("bl_cov failed with " \o e.exc, {"C12"}, e.out = "ok")
         \cup (IF e.out # "ok" THEN {} ELSE Labels(e) \cup
              C("posterior covariance is not that of the master formula", {"C12"},
                NearM(e.val, m.cov, MaxAbsM(m.cov), K))) \cup Held(e)
    [] e.op \in {"weights", "opt"} ->
         C("bl_weights failed with " \o e.exc, {"C12"}, e.out = "ok")
         \cup (IF e.out # "ok" THEN {} ELSE Labels(e)
              \cup IF ~Finite(e.val) THEN C("weights are not finite", {"C12"}, ~SumOK(m.raw)) ELSE
              \* a singular covariance or a zero sum can blow the weights up beyond double precision
              IF FLt(FInt(1000), FNorm1(e.val)) THEN C("weights are out of proportion", {"C12"}, ~SumOK(m.raw)) ELSE
              C("the returned and the held weights differ", {"C12", "C04"}, e.held = e.val)
              \cup C("weights do not sum to one", {"C12"}, Len(e.val) = m.n /\ Close(FSum(e.val), FOne, 1000000))
              \cup (IF m.sing
                    THEN C("weights are not proportional to the least-squares solution", {"C12"},
                           LET Sw == FMatVec(m.S, FMatVec(m.S, e.val)) Sm == FMatVec(m.S, m.post)
                           IN  Len(e.val) = m.n /\ Parallel(Sw, Sm, 100000000))
                    ELSE C("weights are not proportional to the inverse covariance times the posterior returns", {"C12"},
                           SumOK(m.raw) => NearV(e.val, Weights(m), FMaxAbs(Weights(m)), 1000000))))
    [] e.op = "perf" ->
         IF m.held = <<>>
         THEN C("performance was reported although there are no weights", {"C04"}, e.out # "ok") \cup Held(e)
         ELSE IF ~Finite(m.held) THEN {}
         ELSE LET r == FDot(m.post, m.held)
                  q == FQuad(m.held, m.cov, m.held)
                  s == IF FSign(q) <= 0 THEN FZero ELSE FSqrt(q)
                  v == <<r, s, IF FSign(s) = 0 THEN s ELSE FDiv(FSub(r, e.rf), s)>>
              IN  C("performance of held weights was refused with " \o e.exc, {"C04", "C12"}, e.out = "ok")
                  \cup (IF e.out # "ok" THEN {} ELSE
                       C("other figures were printed than reported", {"C04"}, ShownOK(e, e.val)) \cup
                       C("performance is not that of the held weights under the posterior", {"C04", "C12"},
                         Len(e.val) = 3 /\ \A k \in 1..3 :
                            \/ k = 3 /\ FLe(s, FRat(1, 10000))
                            \/ FLt(FInt(1000), FNorm1(m.held))
                            \/ Close(e.val[k], v[k], 10000000))) \cup Held(e)
    [] e.op = "setw" -> C("set_weights stored other weights", {"C16", "C04"}, e.out = "ok" /\ e.held = e.w)

(* Free functions.                                                         *)
FreeClauses(e) ==
  CASE e.op = "mkt" ->
         C("market_implied_prior_returns (" \o e.form \o ") is not as documented", {"C13"},
           LET v == MarketPrior(e.caps, e.ra, e.S, e.rf)
           IN  e.out = "ok" /\ NearV(e.val, v, FAdd(FRat(1, 100), FMaxAbs(v)), K))
         \cup C("results are not labelled by the tickers", {"C13", "C23"}, e.out = "ok" => B(e.keys))
    [] e.op = "ra" ->
         IF B(e.invalid) THEN C("market_implied_risk_aversion accepted prices that are no series", {"C13"}, e.out # "ok")
         ELSE LET p == e.prices
                  r == [t \in 1..(Len(p) - 1) |-> FSub(FDiv(p[t + 1], p[t]), FOne)]
                  mean == FMean(r)
                  d == [t \in 1..Len(r) |-> FSub(r[t], mean)]
                  var == FDiv(FDot(d, d), FInt(Len(r) - 1))
                  v == FDiv(FSub(FMul(mean, e.freq), e.rf), FMul(var, e.freq))
              IN  C("market_implied_risk_aversion is not as documented", {"C13"}, e.out = "ok" /\ Close(e.val, v, K))
    [] e.op = "defomega" ->
         C("default_omega is not diag(tau P S P')", {"C13"}, e.out = "ok" /\
           NearM(e.val, Diag(FScale(e.tau, ViewVar(e.P, e.S))), FOne, K * 10))
    [] e.op = "idz" ->
         IF \E k \in 1..Len(e.conf) : ~Unit(e.conf[k])
         THEN C("a confidence outside [0,1] was accepted", {"C13"}, e.out # "ok")
         ELSE C("idzorek_method is not tau (1-c)/c times the view variance", {"C13"}, e.out = "ok" /\
                LET v == Diag(Idz(e.conf, e.P, e.S, e.tau)) IN
                \A i \in 1..Len(v) : Len(e.val) = Len(v) /\ \A j \in 1..Len(v) : Close(e.val[i][j], v[i][j], K))

FreeOps == {"mkt", "ra", "defomega", "idz"}
Body(e) ==
  CASE e.op = "new" -> NewClauses(e)
    [] e.op \in FreeOps -> FreeClauses(e)
    [] OTHER -> IF m = <<>> THEN {} ELSE AnswerClauses(e)
Clauses(e) == Judge(e, Body(e))
Info(e) == [n |-> 0]
Verdict(e) == [tr |-> tr, l |-> l, op |-> e.op, out |-> e.out, bad |-> Clauses(e), info |-> Info(e)]

Init == tr \in 1..Len(Traces) /\ l = 1 /\ m = <<>>
Next == /\ l <= Len(Traces[tr].ev)
        /\ PrintT("EV " \o ToJson(Verdict(Ev)))
        /\ l' = l + 1 /\ tr' = tr
        /\ m' = CASE Ev.op = "new" -> IF Ev.out = "ok" /\ ~Invalid(Ev) THEN Model(Ev) ELSE m
                  [] Ev.op \in {"weights", "opt", "setw"} /\ m # <<>> -> [m EXCEPT !.held = Ev.held]
                  [] OTHER -> m
=============================================================================
