--------------------------------- MODULE DaTrace ---------------------------------
(***************************************************************************)
(* Discrete allocation: the greedy algorithm as a step relation, the       *)
(* integer program by its objective, and the accounting of both.           *)
(***************************************************************************)
EXTENDS Trace, FiniteSets
VARIABLES tr, l,
          m      \* the object: [n, w, p, V, ratio, missing] or <<>>
vars == <<tr, l, m>>
Ev == Traces[tr].ev[l]

Zero(n) == [i \in 1..n |-> 0]
Money(sh, p, I) == FSum([k \in 1..Len(I) |-> FMul(FInt(sh[I[k]]), p[I[k]])])

----------------------------------------------------------------------------
(* The greedy algorithm for a long-only problem over the assets I, with    *)
(* targets w (by asset) and funds V.  amb marks a decision closer than     *)
(* 1e-9, in which rounding may decide: such runs are not compared.         *)
\* descending weight, input order among equals
RECURSIVE InsertW(_, _, _)
InsertW(i, s, w) == IF s = <<>> THEN <<i>>
                    ELSE IF FLe(w[s[1]], w[i]) /\ FCmp(w[s[1]], w[i]) # 0 THEN <<i>> \o s
                    ELSE <<s[1]>> \o InsertW(i, Tail(s), w)
RECURSIVE SortW(_, _, _)
SortW(I, acc, w) == IF I = <<>> THEN acc ELSE SortW(Tail(I), InsertW(I[1], acc, w), w)

Nano == FRat(1, 1000000000)
First(I, w, p, V) ==
  LET q == [k \in 1..Len(I) |-> FDiv(FMul(w[I[k]], V), p[I[k]])]
      tol(x) == FMul(Nano, FAdd(FOne, x))
  IN  [sh |-> [k \in 1..Len(I) |-> FFloor(q[k])],
       \* within rounding of a whole number of shares
       amb |-> \E k \in 1..Len(I) : /\ FSign(q[k]) > 0
                                    /\ FFloor(FAdd(q[k], tol(q[k]))) # FFloor(FSub(q[k], tol(q[k])))]
RECURSIVE Second(_, _, _, _, _, _, _)
Second(I, w, p, sh, funds, amb, fuel) ==
  IF FSign(funds) <= 0 \/ fuel = 0 THEN [sh |-> sh, funds |-> funds, amb |-> amb \/ fuel = 0]
  ELSE
  LET k == Len(I)
      \* whole prices and funds are subtracted without rounding
      exact == FCmp(FInt(FFloor(funds)), funds) = 0 /\ \A j \in 1..k : FCmp(FInt(FFloor(p[I[j]])), p[I[j]]) = 0
      val == [j \in 1..k |-> FMul(FInt(sh[j]), p[I[j]])]
      tot == FSum(val)
      def == [j \in 1..k |-> FSub(w[I[j]], IF FSign(tot) = 0 THEN FZero ELSE FDiv(val[j], tot))]
      near(j) == ~exact /\ FLe(FAbs(FSub(p[I[j]], funds)), FMul(Nano, FAdd(FOne, funds)))
      can == {j \in 1..k : FLe(p[I[j]], funds) /\ FLt(FZero, def[j])}
      unclear == \E j \in 1..k : near(j) \/ (FLe(p[I[j]], funds) /\ FLe(FAbs(def[j]), Nano) /\ FSign(w[I[j]]) # 0)
  IN  IF can = {} THEN [sh |-> sh, funds |-> funds, amb |-> amb \/ unclear]
      ELSE LET b == CHOOSE j \in can : \A x \in can : FLt(def[x], def[j]) \/ (FCmp(def[x], def[j]) = 0 /\ j <= x)
               tie == \E x \in can \ {b} : FLe(FSub(def[b], def[x]), Nano)
           IN  Second(I, w, p, [sh EXCEPT ![b] = @ + 1], FSub(funds, p[I[b]]), amb \/ unclear \/ tie, fuel - 1)
Greedy(I0, w, p, V, n) ==
  LET I == SortW(I0, <<>>, w)
      f == First(I, w, p, V)
      cost == FSum([k \in 1..Len(I) |-> FMul(FInt(f.sh[k]), p[I[k]])])
      s == Second(I, w, p, f.sh, FSub(V, cost), f.amb, 300)
  IN  [sh |-> [i \in 1..n |-> IF \E k \in 1..Len(I) : I[k] = i THEN s.sh[CHOOSE k \in 1..Len(I) : I[k] = i] ELSE 0],
       funds |-> s.funds, amb |-> s.amb]

----------------------------------------------------------------------------
(* The long and the short side of a problem.                               *)
Idx(n, P(_)) == SelectSeq([i \in 1..n |-> i], P)
Shorting(x) == \E i \in 1..x.n : FSign(x.w[i]) < 0
Sides(x, reinvest) ==
  IF ~Shorting(x)
  THEN <<[I |-> Idx(x.n, LAMBDA i : TRUE), w |-> x.w, V |-> x.V, sg |-> 1]>>
  ELSE LET LI == Idx(x.n, LAMBDA i : FSign(x.w[i]) >= 0)
           SI == Idx(x.n, LAMBDA i : FSign(x.w[i]) < 0)
           lt == FSum([k \in 1..Len(LI) |-> x.w[LI[k]]])
           st == FSum([k \in 1..Len(SI) |-> FNeg(x.w[SI[k]])])
           sr == IF x.ratio = <<>> THEN st ELSE x.ratio
           sv == FMul(sr, x.V)
       IN  << [I |-> LI, w |-> [i \in 1..x.n |-> IF FSign(x.w[i]) >= 0 THEN FDiv(x.w[i], lt) ELSE FZero],
               V |-> IF reinvest THEN FAdd(x.V, sv) ELSE x.V, sg |-> 1],
              [I |-> SI, w |-> [i \in 1..x.n |-> IF FSign(x.w[i]) < 0 THEN FDiv(FNeg(x.w[i]), st) ELSE FZero], V |-> sv, sg |-> -1] >>
Funds(S) == FSum([k \in 1..Len(S) |-> S[k].V])

----------------------------------------------------------------------------
(* The accounting of an answer.  e.sh: shares by asset as logged numbers.  *)
Whole(x) == x # <<>> /\ FCmp(FInt(FFloor(x)), x) = 0
Ints(e) == [i \in 1..m.n |-> FFloor(e.sh[i])]
Accounting(e, S, prop, acc) ==
  IF ~(Len(e.sh) = m.n /\ Finite(e.sh) /\ e.left # <<>>) THEN C("the allocation is malformed", {prop}, FALSE)
  ELSE LET sh == Ints(e)
           cost == FSum([i \in 1..m.n |-> FMul(FAbs(FInt(sh[i])), m.p[i])])
       IN  C("share counts are not whole numbers", {prop}, \A i \in 1..m.n : Whole(e.sh[i]))
           \cup C("zero positions are listed", {prop}, B(e.nozero))
           \cup C("the allocation names other assets", {prop, "C23"}, B(e.keys))
           \cup C("the allocation attribute is not the returned allocation", {prop}, B(e.attr))
           \cup C("a position has the wrong sign", {prop},
                  \A i \in 1..m.n : IF FSign(m.w[i]) < 0 THEN sh[i] <= 0 ELSE sh[i] >= 0)
           \cup C("the leftover is not the funds minus the cost of the shares", {prop},
                  FLe(FAbs(FSub(e.left, FSub(Funds(S), cost))), FMul(acc, FAdd(FOne, Funds(S)))))
           \cup C("more than the funds was spent", {prop},
                  \A k \in 1..Len(S) : FLe(FSum([j \in 1..Len(S[k].I) |-> FMul(FAbs(FInt(sh[S[k].I[j]])), m.p[S[k].I[j]])]),
                                           FAdd(S[k].V, FMul(acc, FAdd(FOne, S[k].V)))))

\* what a verbose call printed about a long portfolio
Milli == FRat(501, 1000000)
ReportOK(e) ==
  LET val == [i \in 1..m.n |-> FMul(e.sh[i], m.p[i])]
      tot == FSum(val)
      al == [i \in 1..m.n |-> IF FSign(tot) = 0 THEN FZero ELSE FDiv(val[i], tot)]
      ms == FDiv(FSum([i \in 1..m.n |-> FMul(FSub(m.w[i], al[i]), FSub(m.w[i], al[i]))]), FInt(m.n))
      near(a, b, t) == a # <<>> /\ FLe(FAbs(FSub(a, b)), t)
  IN  B(e.verb) =>
        /\ Len(e.lines) = m.n
        /\ {e.lines[k][1] : k \in 1..m.n} = 1..m.n
        /\ \A k \in 1..m.n : LET x == e.lines[k] IN near(x[2], al[x[1]], Milli) /\ near(x[3], m.w[x[1]], Milli)
        /\ near(e.rmse, IF FSign(ms) = 0 THEN ms ELSE FSqrt(ms), Milli)
        /\ near(e.rem, e.left, FRat(501, 100000))
Report(e, prop) == C("the printed summary is not that of the allocation", {prop}, Len(e.sh) = m.n /\ Finite(e.sh) /\ e.left # <<>> => ReportOK(e))

GreedyClauses(e) ==
  LET S == Sides(m, B(e.reinvest))
      G == [k \in 1..Len(S) |-> Greedy(S[k].I, S[k].w, m.p, S[k].V, m.n)]
      want == [i \in 1..m.n |-> IF Len(S) = 1 THEN G[1].sh[i] ELSE G[1].sh[i] - G[2].sh[i]]
      amb == \E k \in 1..Len(S) : G[k].amb
  IN  C("greedy_portfolio failed with " \o e.exc, {"C14"}, e.out = "ok" \/ (amb /\ e.exc = "AssertionError"))
      \cup (IF e.out # "ok" THEN {} ELSE Accounting(e, S, "C14", Nano) \cup Report(e, "C14")
           \cup (IF amb \/ ~(Len(e.sh) = m.n /\ Finite(e.sh)) THEN {} ELSE
                C("the allocation is not that of the documented algorithm", {"C14"}, Ints(e) = want)))

(* The integer program: the sum of |target - allocated| plus the leftover. *)
LpObj(side, sh) ==
  LET k == Len(side.I)
  IN  FAdd(FSum([j \in 1..k |-> FAbs(FSub(FMul(side.w[side.I[j]], side.V), FMul(FInt(sh[j]), m.p[side.I[j]])))]),
           FSub(side.V, FSum([j \in 1..k |-> FMul(FInt(sh[j]), m.p[side.I[j]])])))
Affordable(side, sh) == /\ \A j \in 1..Len(sh) : sh[j] >= 0
                        /\ FLe(FSum([j \in 1..Len(sh) |-> FMul(FInt(sh[j]), m.p[side.I[j]])]), side.V)
\* one share more would cost the funds and hardly more: the solver meant to hold it, but that is not affordable
Brink(side, sh) == \E i \in 1..Len(sh) :
  LET c == FAdd(m.p[side.I[i]], FSum([j \in 1..Len(sh) |-> FMul(FInt(sh[j]), m.p[side.I[j]])]))
  IN  FLt(side.V, c) /\ FLe(c, FMul(side.V, FRat(100001, 100000)))
\* whole portfolios around the target
Around(side) ==
  LET k == Len(side.I)
      f == [j \in 1..k |-> FFloor(FDiv(FMul(side.w[side.I[j]], side.V), m.p[side.I[j]]))]
  IN  {x \in [1..k -> 0..2] : TRUE} \X {f}
Shift(pr) == [j \in 1..Len(pr[2]) |-> pr[2][j] - 1 + pr[1][j]]
LpClauses(e) ==
  LET S == Sides(m, B(e.reinvest)) IN
  C("lp_portfolio failed with " \o e.exc, {"C15"}, e.out = "ok")
  \cup (IF e.out # "ok" THEN {} ELSE Accounting(e, S, "C15", FRat(1, 100000000)) \cup Report(e, "C15")
       \cup (IF ~(Len(e.sh) = m.n /\ Finite(e.sh)) THEN {} ELSE
            C("the allocation is not optimal", {"C15"},
              \A k \in 1..Len(S) :
                LET sh == [j \in 1..Len(S[k].I) |-> IF Ints(e)[S[k].I[j]] < 0 THEN -Ints(e)[S[k].I[j]] ELSE Ints(e)[S[k].I[j]]]
                    o == LpObj(S[k], sh)
                    ok(x) == Affordable(S[k], x) =>
                               FLe(o, FAdd(LpObj(S[k], x), FAdd(FMul(FRat(1, 900), FAdd(FOne, o)), FMul(IF e.solver = "SCIPY" THEN FRat(1, 8000) ELSE FRat(1, 800), S[k].V))))
                IN  Brink(S[k], sh) \/
                    /\ (Len(sh) <= 4 => \A pr \in Around(S[k]) : ok(Shift(pr)))
                    /\ (k <= Len(e.cand) /\ Len(e.cand[k]) = Len(sh) => ok(e.cand[k])))))

LatestClauses(e) ==
  IF B(e.invalid) THEN C("get_latest_prices accepted what is no frame", {"C14"}, e.out # "ok")
  ELSE C("get_latest_prices is not the last known price of each asset", {"C14", "C15"},
         /\ e.out = "ok" /\ B(e.keys) /\ Len(e.val) = Len(e.cols)
         /\ \A i \in 1..Len(e.cols) :
              LET known == {t \in 1..Len(e.cols[i]) : e.cols[i][t] # <<>>}
              IN  IF known = {} THEN e.val[i] = <<>>
                  ELSE e.val[i] = e.cols[i][CHOOSE t \in known : \A s \in known : s <= t])
Props == {"C14", "C15"}
Body(e) ==
  IF e.op = "new"
  THEN IF e.bad \notin {"ok", "missing"} THEN C("invalid inputs (" \o e.bad \o ") were accepted", Props, e.out # "ok")
       ELSE IF e.bad = "missing" THEN {} ELSE C("valid inputs were refused with " \o e.exc, Props, e.out = "ok")
  ELSE IF e.op = "latest" THEN LatestClauses(e)
  ELSE IF m = <<>> THEN {}
  ELSE IF m.missing THEN C("an asset without a price was allocated", Props, e.out # "ok")
  ELSE CASE e.op = "greedy" -> GreedyClauses(e)
         [] e.op = "lp" -> LpClauses(e)
         [] OTHER -> {}
Clauses(e) == Judge(e, Body(e))
Info(e) == [n |-> IF e.op = "greedy" /\ e.out = "ok" /\ m # <<>> THEN (LET S == Sides(m, B(e.reinvest)) IN IF \E k \in 1..Len(S) : Greedy(S[k].I, S[k].w, m.p, S[k].V, m.n).amb THEN 0 ELSE 1) ELSE IF e.op = "lp" /\ e.out = "ok" THEN 1 ELSE 0]
Verdict(e) == [tr |-> tr, l |-> l, op |-> e.op, out |-> e.out, bad |-> Clauses(e), info |-> Info(e)]

Init == tr \in 1..Len(Traces) /\ l = 1 /\ m = <<>>
Next == /\ l <= Len(Traces[tr].ev)
        /\ PrintT("EV " \o ToJson(Verdict(Ev)))
        /\ l' = l + 1 /\ tr' = tr
        /\ m' = IF Ev.op = "new" /\ Ev.out = "ok"
                THEN [n |-> Ev.n, w |-> Ev.w, p |-> Ev.p, V |-> Ev.V, ratio |-> Ev.ratio, missing |-> Ev.bad = "missing"]
                ELSE m
=============================================================================
