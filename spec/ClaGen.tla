--------------------------------- MODULE ClaGen ---------------------------------
(* Symbolic behaviours of the critical line algorithm. *)
EXTENDS Naturals, Sequences, TLC, IOUtils
VARIABLES cfg, ops, len, done
Focus == IOEnv.GEN_FOCUS
TheFields ==
  << <<"n", <<2, 3, 3, 4, 4, 5, 5, 6, 6, 10>> >>,
     <<"mu", <<"series", "series", "arr", "list", "col">> >>,
     <<"cov", <<"df", "arr">> >>,
     <<"form", <<"def", "pair", "pair", "arrs", "lists", "pairs", "pairs", "tuples">> >>,
     <<"box", <<"long", "long", "capped", "capped", "short", "floor", "mixed", "mixed", "tight", "exact", "none">> >>,
     <<"cov2", <<"gen", "gen", "gen", "eq">> >>,
     <<"means", <<"pos", "pos", "pos", "mixed", "wide">> >>,
     <<"scale", <<"year", "year", "day", "cov">> >> >>
TheOps(c) == <<"minvol", "minvol", "maxsharpe", "maxsharpe", "frontier", "frontier", "perf", "perf", "perf", "setw", "clean">>
TheLens(c) == <<2, 3, 4, 4, 5, 6>>
M == INSTANCE Menu WITH Fields <- TheFields, Ops <- TheOps, Lens <- TheLens
Init == M!Init
Next == M!Next
=============================================================================
