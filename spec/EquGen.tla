---------------------------------- MODULE EquGen ----------------------------------
(* Symbolic behaviours: one request, then the same request on transformed inputs. *)
EXTENDS Naturals, Sequences, TLC, IOUtils
VARIABLES cfg, ops, len, done
TheFields ==
  << <<"n", <<2, 3, 3, 4, 4, 5, 8, 12>> >>,
     <<"sys", <<"ef_minvol", "ef_sharpe", "ef_utility", "ef_erisk", "ef_eret", "cla_minvol", "cla_sharpe", "hrp_cov", "hrp_ret",
                "bl", "bl", "bl_idz", "bl_weights", "bl_weights", "prior", "ravers", "es", "cv", "cd", "greedy", "greedy", "lp",
                "mean", "ema", "capm", "sample", "semi", "exp", "lw", "lw_sf", "lw_cc", "oas", "shrunk", "obj", "perf", "perf",
                "clean", "latest">> >>,
     <<"cont", <<"df", "df", "arr", "mixed", "mixed2", "list">> >>,
     <<"opts", <<"plain", "bounds", "sector", "both">> >> >>
TheOps(c) == IF IOEnv.GEN_FOCUS = "C21" THEN <<"same", "same", "same", "order">> ELSE <<"same", "perm", "perm", "perm", "rename", "rename", "cont", "cont", "order", "all">>
TheLens(c) == <<1, 2, 3>>
M == INSTANCE Menu WITH Fields <- TheFields, Ops <- TheOps, Lens <- TheLens
Init == M!Init
Next == M!Next
=============================================================================
