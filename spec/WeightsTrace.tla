------------------------------- MODULE WeightsTrace -------------------------------
(***************************************************************************)
(* Setting, cleaning and saving weights.                                   *)
(***************************************************************************)
EXTENDS Trace
VARIABLES tr, l,
          m      \* [n, held] or <<>>
vars == <<tr, l, m>>
Ev == Traces[tr].ev[l]
Pow10(k) == FPow(FInt(10), k)
\* a number with d decimals that is nearest to x
Rounded(v, x, d) ==
  LET p == Pow10(d) s == FMul(v, p)
  IN  /\ FLe(FAbs(FSub(s, FInt(FFloor(FAdd(s, FRat(1, 2)))))), FRat(1, 1000000))
      /\ FLe(FMul(FAbs(FSub(v, x)), p), FAdd(FRat(1, 2), FRat(1, 1000000)))
CleanV(v, h, cutoff, d) ==          \* d = -1: no rounding
  /\ Len(v) = m.n
  /\ \A i \in 1..m.n :
       IF FLt(FAbs(h[i]), cutoff) THEN v[i] # <<>> /\ FSign(v[i]) = 0
       ELSE IF d < 0 THEN v[i] = h[i] ELSE v[i] # <<>> /\ Rounded(v[i], h[i], d)
Kept(e) == C("the held weights changed", {"C16"}, e.held = m.held)
Keys(e) == C("weights are not keyed by the tickers in order", {"C16", "C23"}, e.out = "ok" => B(e.keys))
Def == FRat(1, 10000)
Body(e) ==
  IF e.op = "new" THEN {}
  ELSE IF m = <<>> THEN {} ELSE
  CASE e.op = "setw" ->
         C("set_weights failed with " \o e.exc, {"C16"}, e.out = "ok")
         \cup C("set_weights stored other weights than those given for the tickers", {"C16"}, e.out = "ok" => e.held = e.w)
    [] e.op = "solve" -> C("the returned and the held weights differ", {"C16"}, e.out = "ok" => e.held = e.val) \cup Keys(e)
    [] e.op = "missing" -> C("a missing weight was accepted", {"C16"}, e.out # "ok") \cup Kept(e)
    [] e.op = "clean" ->
         Kept(e) \cup Keys(e)
         \cup (IF m.held = <<>> THEN C("cleaning without weights was not refused", {"C16"}, e.out # "ok")
               ELSE IF e.rounding = "bad" THEN C("an invalid rounding was accepted", {"C16"}, e.out # "ok")
               ELSE C("clean_weights failed with " \o e.exc, {"C16"}, e.out = "ok")
                    \cup C("cleaned weights are not the held weights, zeroed below the cutoff and rounded", {"C16"},
                           e.out = "ok" => CleanV(e.val, m.held, e.cutoff, e.decimals)))
    [] e.op = "save" ->
         Kept(e)
         \cup (IF m.held = <<>> \/ B(e.badext) THEN C("saving was not refused", {"C16"}, e.out # "ok")
               ELSE C("save_weights_to_file failed with " \o e.exc, {"C16"}, e.out = "ok")
                    \cup C("the file does not contain the tickers in order", {"C16"}, e.out = "ok" => B(e.keys))
                    \cup C("the file does not contain the cleaned weights", {"C16"}, e.out = "ok" => CleanV(e.val, m.held, Def, 5)))
    [] OTHER -> {}
Clauses(e) == Judge(e, Body(e))
Verdict(e) == [tr |-> tr, l |-> l, op |-> e.op, out |-> e.out, bad |-> Clauses(e), info |-> [n |-> 0]]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ m = <<>>
Next == /\ l <= Len(Traces[tr].ev)
        /\ PrintT("EV " \o ToJson(Verdict(Ev)))
        /\ l' = l + 1 /\ tr' = tr
        /\ m' = CASE Ev.op = "new" -> [n |-> Ev.n, held |-> <<>>]
                  [] Ev.op = "setw" /\ Ev.out = "ok" -> [m EXCEPT !.held = Ev.w]
                  [] Ev.op = "solve" /\ Ev.out = "ok" -> [m EXCEPT !.held = Ev.held]
                  [] OTHER -> m
=============================================================================
