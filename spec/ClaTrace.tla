-------------------------------- MODULE ClaTrace --------------------------------
(***************************************************************************)
(* The critical line algorithm: its portfolios are judged by the exact     *)
(* first-order conditions of the problems they claim to solve.             *)
(*                                                                         *)
(* All feasible directions in  { w : l <= w <= u, sum w = 1 }  are sums of *)
(* exchanges "a little more of i, a little less of j", so a convex problem *)
(* is solved exactly when no exchange improves it.                         *)
(***************************************************************************)
EXTENDS Trace
VARIABLES tr, l,
          m      \* the model object: [n, mu, S, lo, hi, box, held] or <<>>
vars == <<tr, l, m>>
Ev == Traces[tr].ev[l]

Tiny   == FRat(1, 10000000)               \* room needed to move a weight
BoxTol == FRat(1, 100000000)
\* exchanges that the bounds allow at w
CanUp(w)   == {i \in 1..m.n : FLt(FAdd(w[i], Tiny), m.hi[i])}
CanDown(w) == {i \in 1..m.n : FLt(FAdd(m.lo[i], Tiny), w[i])}
Pairs(w)   == {p \in CanUp(w) \X CanDown(w) : p[1] # p[2]}
InBox(w) == /\ Len(w) = m.n /\ Finite(w)
            /\ \A i \in 1..m.n : FLe(FSub(m.lo[i], BoxTol), w[i]) /\ FLe(w[i], FAdd(m.hi[i], BoxTol))
            /\ Close(FSum(w), FOne, 100000000)
Tol(g) == FMul(FRat(1, 1000000), FAdd(FRat(1, 1000000), FMaxAbs(g)))

LeastVariance(w) ==
  LET g == FMatVec(m.S, w) t == Tol(g)
  IN  \A p \in Pairs(w) : FLe(FSub(g[p[2]], g[p[1]]), t)
\* stationary for  mu'w / sqrt(w'Sw);  pseudo-concave where mu'w > 0
HighestRatio(w) ==
  LET g == FMatVec(m.S, w)
      v == FDot(w, g)
      r == FDot(m.mu, w)
      d == [i \in 1..m.n |-> FSub(FMul(m.mu[i], v), FMul(r, g[i]))]
      t == FMul(FRat(1, 100000), FAdd(FMul(v, FMaxAbs(m.mu)), FMul(FAbs(r), FMaxAbs(g))))
  IN  \A p \in Pairs(w) : FLe(FSub(d[p[1]], d[p[2]]), t)
\* least variance for its return, and no higher return at that variance: multipliers lam >= 0
\* with  g_i - g_j >= lam (mu_i - mu_j)  for every allowed exchange
OnFrontier(w) ==
  LET g  == FMatVec(m.S, w) t == Tol(g)
      P  == Pairs(w)
      D(p) == FSub(m.mu[p[1]], m.mu[p[2]])
      R(p) == FDiv(FAdd(FSub(g[p[1]], g[p[2]]), IF FSign(D(p)) > 0 THEN t ELSE t), D(p))
      Up == {R(p) : p \in {q \in P : FSign(D(q)) > 0}}        \* lam <= R
      Dn == {R(p) : p \in {q \in P : FSign(D(q)) < 0}}        \* lam >= R
  IN  /\ \A a \in Up : FSign(a) >= 0
      /\ \A a \in Up, b \in Dn : FLe(b, a)

\* the highest attainable return: fill the assets from the best mean down
RECURSIVE Fill(_, _, _)
Fill(rest, room, acc) ==
  IF rest = {} THEN acc
  ELSE LET i == CHOOSE x \in rest : \A y \in rest : FLe(m.mu[y], m.mu[x])
           take == FMin(room, FSub(m.hi[i], m.lo[i]))
       IN  Fill(rest \ {i}, FSub(room, take), FAdd(acc, FMul(take, m.mu[i])))
TopReturn == Fill(1..m.n, FSub(FOne, FSum(m.lo)), FDot(m.mu, m.lo))
SomePositive == FLt(FRat(1, 100000), TopReturn)

Vol(w) == FSqrt(FQuad(w, m.S, w))
Keys(e) == C("results are not labelled by the tickers", {"C10", "C23"}, B(e.keys))
Kept(e) == C("the held weights changed in a call that does not set weights", {"C10", "C04"}, e.held = m.held)
Body(e) ==
  IF e.op = "new" THEN C("a valid problem was refused with " \o e.exc, {"C10"}, e.box = "none" \/ e.out = "ok")
  ELSE IF m = <<>> THEN {}
  ELSE IF m.box = "none"
  THEN C("bounds without any portfolio were answered by " \o e.op, {"C06"}, e.out # "ok")
       \cup C("a refused request left weights", {"C06"}, e.held = <<>>)
  ELSE
  CASE e.op \in {"minvol", "maxsharpe"} ->
         C(e.op \o " failed with " \o e.exc, {"C10"}, e.out = "ok")
         \cup (IF e.out # "ok" THEN {} ELSE
              Keys(e)
              \cup C("the returned and the held weights differ", {"C10", "C04"}, e.held = e.val)
              \cup (IF ~InBox(e.val) THEN C("weights of " \o e.op \o " break bounds or budget", {"C10"}, FALSE)
                    ELSE IF e.op = "minvol" THEN C("min_volatility is not the least variance", {"C10"}, LeastVariance(e.val))
                    ELSE C("max_sharpe is not the highest ratio", {"C10"}, SomePositive => HighestRatio(e.val))))
    [] e.op = "frontier" ->
         C("efficient_frontier failed with " \o e.exc, {"C10"}, e.out = "ok")
         \cup Kept(e)
         \cup (IF e.out # "ok" THEN {} ELSE
              LET N == Len(e.ws) IN
              C("the frontier lists differ in length", {"C10"}, Len(e.rets) = N /\ Len(e.vols) = N)
              \cup (IF ~(\A k \in 1..N : InBox(e.ws[k])) THEN C("frontier weights break bounds or budget", {"C10"}, FALSE)
                    ELSE C("a frontier point is not of least variance for its return", {"C10"}, \A k \in 1..N : OnFrontier(e.ws[k]))
                    \cup C("frontier returns or volatilities are not those of the listed weights", {"C10"},
                           Len(e.rets) = N /\ Len(e.vols) = N => \A k \in 1..N :
                              /\ Close(e.rets[k], FDot(m.mu, e.ws[k]), 100000000)
                              /\ Close(e.vols[k], Vol(e.ws[k]), 100000000))
                    \cup (IF N < 2 THEN {} ELSE
                          C("the frontier does not start at the highest return", {"C10"},
                            Close(FDot(m.mu, e.ws[1]), TopReturn, 10000000))
                          \cup C("the frontier does not end at the least variance", {"C10"}, LeastVariance(e.ws[N]))
                          \cup C("the frontier is not ordered by return", {"C10"},
                                 \A k \in 1..(N - 1) : FLe(FDot(m.mu, e.ws[k + 1]), FAdd(FDot(m.mu, e.ws[k]), BoxTol))))))
    [] e.op = "perf" ->
         IF m.held = <<>>
         THEN C("performance was reported although there are no weights", {"C04"}, e.out # "ok") \cup Kept(e)
         ELSE LET r == FDot(m.mu, m.held)
                  s == Vol(m.held)
                  v == <<r, s, FDiv(FSub(r, e.rf), s)>>
              IN  C("performance of held weights was refused with " \o e.exc, {"C04"}, e.out = "ok")
                  \cup (IF e.out # "ok" THEN {} ELSE
                       C("performance is not that of the held weights", {"C04", "C10"},
                         Len(e.val) = 3 /\ \A k \in 1..3 : Close(e.val[k], v[k], 100000000))
                       \cup C("other figures were printed than reported", {"C04"}, ShownOK(e, e.val))) \cup Kept(e)
    [] e.op = "setw" -> C("set_weights of CLA did something", {"C10"}, e.out # "ok") \cup Kept(e)
    [] e.op = "clean" ->
         C("clean_weights altered the held weights", {"C16"}, e.held = m.held)
         \cup C("clean_weights is not the held weights with small ones dropped", {"C16"},
                e.out = "ok" => /\ Len(e.val) = m.n
                                /\ \A i \in 1..m.n :
                                     IF FLt(FAbs(m.held[i]), FRat(1, 10000)) THEN FSign(e.val[i]) = 0
                                     ELSE FLe(FAbs(FSub(e.val[i], m.held[i])), FRat(51, 10000000)))
         \cup C("clean_weights without weights", {"C16"}, (m.held = <<>>) = (e.out # "ok"))
    [] OTHER -> {}
Clauses(e) == Judge(e, Body(e))
Info(e) == [n |-> IF e.op = "frontier" /\ e.out = "ok" THEN Len(e.ws) ELSE IF e.op \in {"minvol", "maxsharpe"} THEN 1 ELSE 0]
Verdict(e) == [tr |-> tr, l |-> l, op |-> e.op, out |-> e.out, bad |-> Clauses(e), info |-> Info(e)]

Init == tr \in 1..Len(Traces) /\ l = 1 /\ m = <<>>
Next == /\ l <= Len(Traces[tr].ev)
        /\ PrintT("EV " \o ToJson(Verdict(Ev)))
        /\ l' = l + 1 /\ tr' = tr
        /\ m' = CASE Ev.op = "new" /\ Ev.out = "ok" ->
                       [n |-> Ev.n, mu |-> Ev.mu, S |-> Ev.S, lo |-> Ev.lo, hi |-> Ev.hi, box |-> Ev.box, held |-> <<>>]
                  [] Ev.op \in {"minvol", "maxsharpe"} /\ m # <<>> -> [m EXCEPT !.held = Ev.held]
                  [] OTHER -> m
=============================================================================
