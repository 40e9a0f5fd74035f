---------------------------------- MODULE DaGen ----------------------------------
(* Symbolic behaviours of discrete allocation. *)
EXTENDS Naturals, Sequences, TLC, IOUtils
VARIABLES cfg, ops, len, done
Focus == IOEnv.GEN_FOCUS
TheFields ==
  << <<"n", IF Focus = "C15" THEN <<1, 2, 3, 3, 4>> ELSE <<1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 12, 15>> >>,
     <<"kind", <<"long", "long", "long", "long", "partial", "zeros", "mixed", "mixed", "mixed", "fit", "equal">> >>,
     <<"value", <<"def", "small", "small", "mid", "mid", "mid", "big", "tiny">> >>,
     <<"price", <<"any", "any", "whole", "cents", "dear", "oneDear", "fewCheap", "nice", "nice">> >>,
     <<"order", <<"same", "shuffled", "superset">> >>,
     <<"ratio", <<"def", "def", "given">> >>,
     <<"bad", <<"ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "weights", "nanw", "prices", "nanp", "value", "ratio", "missing">> >> >>
TheOps(c) == IF Focus = "C15" THEN <<"lp", "lp", "lp", "lpr", "greedy", "lpv">>
             ELSE <<"greedy", "greedy", "greedy", "greedyr", "greedyv", "latest">>
TheLens(c) == IF c.bad \notin {"ok", "missing"} THEN <<0>> ELSE IF c.bad = "missing" THEN <<1>> ELSE IF Focus = "C15" THEN <<1, 1, 2, 2, 3>> ELSE <<1, 2, 2, 3, 4>>
M == INSTANCE Menu WITH Fields <- TheFields, Ops <- TheOps, Lens <- TheLens
Init == M!Init
Next == M!Next
=============================================================================
