--------------------------------- MODULE PlotGen ---------------------------------
(* Symbolic behaviours of the plotting functions. *)
EXTENDS Naturals, Sequences, TLC, IOUtils
VARIABLES cfg, ops, len, done
TheFields ==
  << <<"kind", <<"ef", "ef", "ef", "cla", "cla", "hrp", "hrp", "cov", "weights">> >>,
     <<"n", <<2, 3, 3, 4, 4, 5, 6>> >>,
     <<"box", <<"long", "long", "capped", "floor", "short">> >>,
     <<"means", <<"pos", "pos", "mixed", "mixed", "neg">> >>,
     <<"extra", <<"none", "none", "none", "cap", "l2", "share">> >>,
     <<"where", <<"given", "current">> >>,
     <<"look", <<"mpl", "mpl", "mpl", "web">> >> >>
TheOps(c) ==
  CASE c.kind = "ef" -> <<"ret", "ret", "risk", "util", "def", "def", "retbad", "riskbad", "utilbad", "param">>
    [] c.kind = "cla" -> <<"plot", "plot", "plot", "minvol", "maxsharpe", "frontier">>
    [] c.kind = "hrp" -> <<"dend", "dend", "dend", "opt", "optm", "setw", "wrong">>
    [] c.kind = "cov" -> <<"cov", "cov", "corr">>
    [] OTHER -> <<"bars">>
TheLens(c) == IF c.kind = "ef" THEN <<1, 1, 2>> ELSE IF c.kind \in {"cla", "hrp"} THEN <<1, 2, 3>> ELSE <<1, 2>>
M == INSTANCE Menu WITH Fields <- TheFields, Ops <- TheOps, Lens <- TheLens
Init == M!Init
Next == M!Next
=============================================================================
