---------------------------------- MODULE EstGen ----------------------------------
(* Symbolic behaviours of the estimators: a data set, then calls on it. *)
EXTENDS Naturals, Sequences, TLC, IOUtils
VARIABLES cfg, ops, len, done
Focus == IOEnv.GEN_FOCUS
TheFields ==
  << <<"n", IF Focus = "C17" THEN <<1, 2, 2, 3, 3, 4, 5, 8>> ELSE <<2, 2, 3, 3, 4, 5, 8>> >>,
     <<"T", <<"short", "mid", "mid", "long", "verylong">> >>,
     <<"cont", <<"df", "df", "df", "arr", "list">> >>,
     <<"gaps", IF Focus = "C20" THEN <<"none", "none", "none", "lead">> ELSE <<"none", "none", "lead", "holes", "row", "inf">> >>,
     <<"index", <<"dates", "dates", "range", "str">> >>,
     <<"dtype", <<"float", "float", "float", "int">> >>,
     <<"size", <<"normal", "normal", "small", "big">> >> >>
TheOps(c) ==
  CASE Focus = "C17" -> <<"toret", "toret", "toprice", "toprice", "there", "mean", "mean", "mean", "ema", "ema", "ema", "capm", "capm", "capm", "again", "badmodel">>
    [] Focus = "C18" -> <<"sample", "sample", "semi", "semi", "exp", "exp", "mcd", "corr", "tocov", "again", "badmodel">>
    [] Focus = "C19" -> <<"fix", "fix", "fix", "fix", "fix", "fixbad", "sample", "exp", "again">>
    [] Focus = "C20" -> <<"shnew", "shrunk", "shrunk", "lwv", "lwv", "lwf", "lwf", "lwc", "lwc", "oas", "oas", "again", "badtarget", "shmodel", "shmodel">>
TheLens(c) == IF Focus = "C20" THEN <<2, 3, 4, 5>> ELSE <<2, 3, 4>>
M == INSTANCE Menu WITH Fields <- TheFields, Ops <- TheOps, Lens <- TheLens
Init == M!Init
Next == M!Next
=============================================================================
