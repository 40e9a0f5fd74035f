---------------------------------- MODULE BLGen ----------------------------------
(* Symbolic Black-Litterman behaviours. *)
EXTENDS Naturals, Sequences, TLC, IOUtils
VARIABLES cfg, ops, len, done
Focus == IOEnv.GEN_FOCUS
Bad == IF Focus = "C13"
       THEN <<"ok", "ok", "ok", "ok", "ok", "ok", "tau", "ra", "ticker", "conf", "nocaps", "noconf", "omegadim", "pdim", "pidim",
              "qtype", "viewtype", "pitype", "omtype", "ptype", "conflen">>
       ELSE <<"ok">>
TheFields ==
  << <<"n", <<2, 3, 3, 3, 4, 4, 5, 8>> >>,
     <<"k", <<"one", "some", "some", "all">> >>,
     <<"cov", <<"df", "df", "arr">> >>,
     <<"view", <<"dict", "series", "qp", "qpdf", "qpvec", "q1">> >>,
     <<"pi", <<"none", "arr", "arr", "series", "df", "market", "marketdict", "marketarr", "equal">> >>,
     <<"omega", <<"none", "default", "arr", "df", "full", "idz", "idz", "idzlist">> >>,
     <<"tau", <<"def", "low", "mid", "one">> >>,
     <<"ra", <<"def", "set">> >>,
     <<"sing", <<"no", "no", "no", "no", "no", "cov">> >>,
     <<"bad", Bad>> >>
TheOps(c) == IF Focus = "C13" THEN <<"rets", "mkt", "mkt", "ra", "ra", "defomega", "idz", "idz">>
             ELSE <<"rets", "rets", "cov", "cov", "weights", "weights", "opt", "perf", "perf", "perf", "setw", "clean">>
TheLens(c) == IF c.bad # "ok" THEN <<0>> ELSE IF Focus = "C13" THEN <<1, 2, 3>> ELSE <<2, 3, 4, 5, 6>>
M == INSTANCE Menu WITH Fields <- TheFields, Ops <- TheOps, Lens <- TheLens
Init == M!Init
Next == M!Next
=============================================================================
