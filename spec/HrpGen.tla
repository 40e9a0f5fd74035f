--------------------------------- MODULE HrpGen ---------------------------------
(* Symbolic behaviours of hierarchical risk parity. *)
EXTENDS Naturals, Sequences, TLC, IOUtils
VARIABLES cfg, ops, len, done
TheFields ==
  << <<"n", <<2, 3, 4, 4, 5, 5, 6, 6, 9, 12>> >>,
     <<"input", <<"returns", "returns", "cov", "both">> >>,
     <<"bad", <<"ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "none", "type">> >> >>
TheOps(c) == <<"opt", "opt", "opt", "optm", "optm", "optm", "optm", "optbad", "perf", "perf", "setw", "clean">>
TheLens(c) == IF c.bad # "ok" THEN <<0>> ELSE <<1, 2, 3, 3, 4, 5>>
M == INSTANCE Menu WITH Fields <- TheFields, Ops <- TheOps, Lens <- TheLens
Init == M!Init
Next == M!Next
=============================================================================
