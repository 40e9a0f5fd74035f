-------------------------------- MODULE WeightsGen --------------------------------
(* Symbolic behaviours of weight post-processing. *)
EXTENDS Naturals, Sequences, TLC, IOUtils
VARIABLES cfg, ops, len, done
TheFields ==
  << <<"n", <<1, 2, 3, 4, 5, 6, 7, 8, 15>> >>,
     <<"cls", <<"base", "base", "basenum", "EF", "HRP", "BL", "CLA">> >>,
     <<"start", <<"set", "set", "set", "none", "solved">> >> >>
TheOps(c) == <<"setw", "setw", "clean", "clean", "cleanarg", "cleanarg", "cleanarg", "cleanbad", "csv", "json", "txt", "upper", "badext", "missing">>
TheLens(c) == <<2, 3, 4, 5, 6, 7>>
M == INSTANCE Menu WITH Fields <- TheFields, Ops <- TheOps, Lens <- TheLens
Init == M!Init
Next == M!Next
=============================================================================
