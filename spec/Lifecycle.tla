------------------------------- MODULE Lifecycle -------------------------------
(***************************************************************************)
(* The user-visible life cycle of an optimizer object: which requests are  *)
(* answered, which are refused because the object has been solved, and     *)
(* what a request does to the object.  Shared by the design model          *)
(* (OptimizerDesign), the behaviour generator (OptimizerGen) and the       *)
(* conformance specification (OptimizerTrace).                             *)
(*                                                                         *)
(* A life record has                                                       *)
(*   phase   "fresh" | "attempted" (a solve failed in the solver) |        *)
(*           "solved"                                                      *)
(*   meth, mn    method and market-neutral flag of the (last) solve        *)
(*   taint   a foreign method was refused since: the object may refuse     *)
(*           further solves (with InstantiationError), never answer wrongly *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Classes == {"EF", "ES", "CV", "CD"}
AllMethods == {"min", "sharpe", "qu", "erisk", "eret", "convex"}
Supported(cls, m) ==
  CASE cls = "EF" -> TRUE
    [] cls = "ES" -> m \in {"min", "qu", "erisk", "eret"}
    [] cls \in {"CV", "CD"} -> m \in {"min", "erisk", "eret"}
\* methods whose target can be changed on a solved object
Parameterised(m) == m \in {"qu", "erisk", "eret"}
\* methods that take market_neutral
TakesMN(cls, m) == Parameterised(m) \/ (m = "min" /\ cls # "EF")

Fresh == [phase |-> "fresh", meth |-> "none", mn |-> FALSE, taint |-> FALSE]

(* What the contract says about a solving request.                         *)
(*   "refuse"   must fail                                                  *)
(*   "frozen"   must fail with InstantiationError                          *)
(*   "answer"   must be answered if an admissible portfolio clearly exists *)
(*   "maybe"    may fail (InstantiationError or as infeasible); an answer  *)
(*              must be right                                              *)
(* args is "good", "grey" (validity unspecified) or "bad".                 *)
ExpectSolve(life, cls, m, mn, args) ==
  IF ~Supported(cls, m) \/ args = "bad" THEN "refuse"
  ELSE IF life.phase = "fresh" THEN (IF args = "grey" THEN "maybe" ELSE "answer")
  ELSE IF m # life.meth \/ mn # life.mn
       THEN (IF life.phase = "solved" /\ args = "good" THEN "frozen"
             ELSE IF life.phase = "solved" THEN "refuse" ELSE "maybe")
  ELSE IF ~Parameterised(m) \/ life.taint \/ args = "grey" THEN "maybe"
  ELSE "answer"

(* A request to add a constraint or objective.                             *)
ExpectAdd(life) == CASE life.phase = "fresh" -> "answer"
                     [] life.phase = "attempted" -> "maybe"
                     [] life.phase = "solved" -> "frozen"

(* Outcome: "ok", "inst" (InstantiationError), "arg" (refused for its      *)
(* arguments or by the class), "solver" (found no portfolio).              *)
AfterSolve(life, m, mn, out) ==
  CASE out = "ok"     -> [phase |-> "solved", meth |-> m, mn |-> mn, taint |-> life.taint]
    [] out = "arg"    -> IF life.phase = "solved" /\ (m # life.meth)
                         THEN [life EXCEPT !.taint = TRUE] ELSE life
    [] out = "inst"   -> IF m # life.meth \/ ~Parameterised(m)
                         THEN [life EXCEPT !.taint = TRUE] ELSE life
    [] out = "solver" -> IF life.phase = "fresh"
                         THEN [phase |-> "attempted", meth |-> m, mn |-> mn, taint |-> FALSE]
                         ELSE IF (m # life.meth \/ mn # life.mn)
                         THEN [life EXCEPT !.taint = TRUE]
                         ELSE life
=============================================================================
