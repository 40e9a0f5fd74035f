---------------------------------- MODULE Menu ----------------------------------
(***************************************************************************)
(* Generates symbolic behaviours: first a value for every field of the     *)
(* configuration, then a sequence of operations.  Options that should be   *)
(* more likely are listed more than once.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Fields,      \* sequence of <<name, options>>
          Ops(_),      \* menu of operation names, given the configuration so far
          Lens(_)      \* how many operations (a sequence of choices)
VARIABLES cfg,         \* chosen option index per field
          ops, len, done
mvars == <<cfg, ops, len, done>>
Value(i) == Fields[i][2][cfg[i]]
Names == { Fields[i][1] : i \in 1..Len(Fields) }
Cfg == [nm \in Names |-> LET i == CHOOSE j \in 1..Len(Fields) : Fields[j][1] = nm IN Value(i)]
Init == cfg = <<>> /\ ops = <<>> /\ len = 0 /\ done = FALSE
Next ==
  \/ /\ Len(cfg) < Len(Fields)
     /\ \E i \in 1..Len(Fields[Len(cfg) + 1][2]) : cfg' = Append(cfg, i)
     /\ UNCHANGED <<ops, len, done>>
  \/ /\ Len(cfg) = Len(Fields) /\ len = 0
     /\ \E i \in 1..Len(Lens(Cfg)) : len' = Lens(Cfg)[i] + 1
     /\ UNCHANGED <<cfg, ops, done>>
  \/ /\ len > 0 /\ Len(ops) < len - 1
     /\ \E i \in 1..Len(Ops(Cfg)) : ops' = Append(ops, i)
     /\ UNCHANGED <<cfg, len, done>>
  \/ /\ len > 0 /\ Len(ops) = len - 1 /\ ~done
     /\ done' = TRUE
     /\ PrintT("BEH " \o ToJson([cfg |-> Cfg, ops |-> [i \in 1..Len(ops) |-> Ops(Cfg)[ops[i]]]]))
     /\ UNCHANGED <<cfg, ops, len>>
=============================================================================
