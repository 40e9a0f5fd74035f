-------------------------------- MODULE HrpTrace --------------------------------
(***************************************************************************)
(* Hierarchical risk parity: the objects, judged by the construction of    *)
(* Clustering.                                                             *)
(***************************************************************************)
EXTENDS Clustering
VARIABLES tr, l,
          m      \* the object: [n, input, X, S, held, cov] or <<>>
vars == <<tr, l, m>>
Ev == Traces[tr].ev[l]
N == m.n

OptClauses(e) ==
  IF e.rule \notin Rules
  THEN C("an unknown linkage method was accepted", {"C11"}, e.out # "ok") \cup C("a refused call changed the weights", {"C11"}, e.held = m.held)
  ELSE C("optimize failed with " \o e.exc, {"C11"}, e.out = "ok")
       \cup (IF e.out # "ok" THEN {} ELSE
            C("the returned weights are not labelled by the tickers", {"C11", "C23"}, B(e.keys))
            \cup C("the returned and the held weights differ", {"C11", "C04"}, e.held = e.val)
            \cup C("weights are not positive or do not sum to one", {"C11"},
                   Len(e.val) = N /\ Finite(e.val) /\ Close(FSum(e.val), FOne, 1000000000) /\ \A i \in 1..N : FSign(e.val[i]) > 0)
            \cup LET L == Leaves(e.rule, m.cov) IN
                 C("weights are not those of the documented construction (" \o e.rule \o ")", {"C11"},
                   Distinct(L.gap) => CloseV(e.val, Weights(m.cov, L.leaves), 100000000)))
Clean(h, v) == /\ Len(v) = N
               /\ \A i \in 1..N : IF FLt(FAbs(h[i]), FRat(1, 10000)) THEN FSign(v[i]) = 0
                                  ELSE FLe(FAbs(FSub(v[i], h[i])), FRat(51, 10000000))
Body(e) ==
  IF e.op = "new"
  THEN IF e.bad # "ok" THEN C("invalid inputs were accepted", {"C11"}, e.out # "ok")
       ELSE C("valid inputs were refused with " \o e.exc, {"C11"}, e.out = "ok")
  ELSE IF m = <<>> THEN {} ELSE
  CASE e.op = "opt" -> OptClauses(e)
    [] e.op = "perf" ->
         IF m.held = <<>> THEN C("performance was reported although there are no weights", {"C04"}, e.out # "ok")
         ELSE C("performance of held weights was refused with " \o e.exc, {"C04", "C11"}, e.out = "ok")
              \cup (IF e.out # "ok" THEN {}
                    ELSE IF m.input = "cov"
                    THEN C("performance is not that of the held weights", {"C04"},
                           Len(e.val) = 3 /\ e.val[1] = <<>> /\ e.val[3] = <<>> /\ Close(e.val[2], FSqrt(FQuad(m.held, m.cov, m.held)), 100000000))
                    ELSE LET r == FMul(e.freq, FDot(m.held, [i \in 1..N |-> FMean(Column(m.X, i))]))
                             s == FSqrt(FMul(e.freq, FQuad(m.held, m.cov, m.held)))
                             v == <<r, s, FDiv(FSub(r, e.rf), s)>>
                         IN  C("performance is not that of the held weights", {"C04", "C11"},
                               Len(e.val) = 3 /\ \A k \in 1..3 : Close(e.val[k], v[k], 10000000)))
              \cup C("other figures were printed than reported", {"C04"}, e.out = "ok" => ShownOK(e, e.val))
              \cup C("performance changed the held weights", {"C04"}, e.held = m.held)
    [] e.op = "setw" -> C("set_weights stored other weights", {"C16", "C04"}, e.out = "ok" /\ e.held = e.w)
    [] e.op = "clean" ->
         C("clean_weights altered the held weights", {"C16"}, e.held = m.held)
         \cup C("clean_weights without weights", {"C16"}, (m.held = <<>>) = (e.out # "ok"))
         \cup C("clean_weights is not the held weights with small ones dropped", {"C16"}, e.out = "ok" => Clean(m.held, e.val))
    [] OTHER -> {}
Clauses(e) == Judge(e, Body(e))
Info(e) == [n |-> IF e.op = "opt" /\ e.out = "ok" THEN 1 ELSE 0]
Verdict(e) == [tr |-> tr, l |-> l, op |-> e.op, out |-> e.out, bad |-> Clauses(e), info |-> Info(e)]

Init == tr \in 1..Len(Traces) /\ l = 1 /\ m = <<>>
Next == /\ l <= Len(Traces[tr].ev)
        /\ PrintT("EV " \o ToJson(Verdict(Ev)))
        /\ l' = l + 1 /\ tr' = tr
        /\ m' = CASE Ev.op = "new" /\ Ev.out = "ok" ->
                       [n |-> Ev.n, input |-> Ev.input, X |-> Ev.X, held |-> <<>>,
                        cov |-> IF Ev.input = "cov" THEN Ev.S ELSE SampleCov(Ev.X)]
                  [] Ev.op \in {"opt", "setw"} /\ m # <<>> -> [m EXCEPT !.held = Ev.held]
                  [] OTHER -> m
=============================================================================
