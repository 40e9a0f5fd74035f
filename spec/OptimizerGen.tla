----------------------------- MODULE OptimizerGen -----------------------------
(***************************************************************************)
(* Symbolic behaviours of optimizer objects: which calls are made, on      *)
(* which object, in which order, with which kind of argument.  Run with    *)
(* TLC -simulate; every finished behaviour is printed and then replayed on *)
(* the real classes.  Focus selects the mix for a property.                *)
(*                                                                         *)
(* A behaviour is built in two kinds of step so that the mix can be        *)
(* weighted: first a category is drawn (Pick), then its parameters (Put).  *)
(***************************************************************************)
EXTENDS Lifecycle, TLC, Json, IOUtils

Focus == IOEnv.GEN_FOCUS

VARIABLES beh,    \* calls so far
          lives,  \* sequence: predicted life of every object
          cls,    \* class of the objects
          len,    \* number of calls wanted
          cat     \* drawn category <<name, k>>, or <<"none", 0>>
vars == <<beh, lives, cls, len, cat>>

NoCat == <<"none", 0>>
Done == <<"done", 0>>
Rng(s) == { s[i] : i \in 1..Len(s) }
ObjFns == {"var", "ret", "sharpe", "L2", "qu", "tc", "tea", "tep"}
AllM == [EF |-> {"min", "sharpe", "qu", "erisk", "eret", "convex"},
         ES |-> {"min", "qu", "erisk", "eret"},
         CV |-> {"min", "erisk", "eret"}, CD |-> {"min", "erisk", "eret"}]
Easy == {"low", "mid", "high", "slack"}
(* Per focus: classes, methods, how often market neutral, target kinds,    *)
(* constraint and objective kinds, bound kinds, sizes, category weights    *)
(* before and after the first solve, number of calls.                      *)
Default ==
  [classes |-> <<"EF", "EF", "ES", "CV", "CD">>, meth |-> {"min", "sharpe", "qu", "erisk", "eret"},
   mn |-> <<FALSE, FALSE, FALSE, TRUE>>, tgt |-> Easy, con |-> {"lin", "lin2", "lin3", "sector", "norm"},
   obj |-> {"L2", "tc", "tea", "tep"}, bounds |-> {"any"}, size |-> {"any"}, mu |-> <<"yes">>,
   before |-> <<"con", "con", "solve", "solve">>, after |-> <<"perf", "resolve">>, failed |-> <<"retry", "retry", "con">>, objects |-> 1, lens |-> 2..4]
F == CASE
  Focus = "C01" -> [Default EXCEPT !.before = <<"con", "con", "con", "solve", "obj">>, !.after = <<"resolve", "resolve", "perf", "setpar">>,
                                   !.con = @ \cup {"param"}, !.lens = 2..5,
                                   !.tgt = Easy \cup {"infeas"}]
  [] Focus = "C02" -> [Default EXCEPT !.classes = <<"EF">>, !.before = <<"con", "obj", "solve", "solve">>, !.lens = 1..4, !.after = <<"resolve">>]
  [] Focus = "C03" -> [Default EXCEPT !.classes = <<"ES", "CV", "CD">>, !.before = <<"con", "obj", "solve", "solve">>, !.lens = 1..4, !.after = <<"resolve">>]
  [] Focus = "C04" -> [Default EXCEPT !.before = <<"con", "obj", "solve", "solve", "setw", "perf", "mperf">>, !.lens = 3..8, !.objects = 2, !.mu = <<"yes", "yes", "yes", "yes", "no">>,
                                      !.tgt = Easy \cup {"infeas"}, !.after = <<"perf", "perf", "perf", "resolve", "setw", "copy", "foreign", "solve2">>]
  [] Focus = "C05" -> [Default EXCEPT !.before = <<"con", "obj", "solve", "solve", "param">>, !.lens = 4..9, !.meth = {"min", "sharpe", "qu", "erisk", "eret", "erisk", "convex"},
                                      !.tgt = Easy \cup {"infeas", "infeas2", "neg"},
                                      !.con = @ \cup {"param"}, !.after = <<"resolve", "resolve", "resolve", "perf", "foreign", "con", "obj", "flip", "setpar", "setpar">>,
                                      !.failed = <<"retry", "retry", "retry", "other", "con", "obj", "perf">>]
  [] Focus = "C06" -> [Default EXCEPT !.before = <<"con", "badcon", "bad", "bad", "solve", "solve", "spoil", "setpar", "unsupported", "nonconv">>, !.lens = 2..7, !.bounds = {"any", "any2", "any3", "bad"}, !.mu = <<"yes", "yes", "yes", "no">>,
                                      !.tgt = Easy \cup {"infeas", "infeas2", "neg", "bad", "int"}, !.con = {"lin", "lin2", "sector", "infeas", "param"},
                                      !.after = <<"bad", "resolve", "perf", "unsupported", "setpar", "spoil">>]
  [] Focus = "C07" -> [Default EXCEPT !.before = <<"con", "obj", "solve", "copy", "con", "solve">>, !.lens = 4..10, !.objects = 3, !.con = {"lin", "lin2", "sector"},
                                      !.tgt = Easy \cup {"infeas"}, !.after = <<"copy", "resolve", "resolve", "perf", "con", "obj", "solve2", "solve2", "setw">>]
  [] Focus = "C08" -> [Default EXCEPT !.mn = <<TRUE, TRUE, TRUE, FALSE>>, !.meth = {"min", "qu", "erisk", "eret"}, !.bounds = {"long", "short"},
                                      !.before = <<"con", "con", "solve", "obj">>, !.after = <<"resolve", "flip", "perf">>, !.lens = 1..5]
  [] Focus = "C09" -> [Default EXCEPT !.classes = <<"EF">>, !.meth = {"convex", "min", "qu", "erisk", "eret"}, !.before = <<"obj", "obj", "con", "solve", "objval", "objval", "objval", "nonconv">>, !.lens = 2..6,
                                      !.tgt = {"mid", "free", "sum1"}, !.after = <<"resolve", "objval">>]
  [] OTHER -> [Default EXCEPT !.con = @ \cup {"param"}, !.after = <<"perf", "resolve", "solve2", "foreign", "con", "obj", "copy", "setw", "bad", "setpar", "spoil">>, !.lens = 3..9, !.objects = 3]

Meths == F.meth \cap AllM[cls]
MNs(m) == IF TakesMN(cls, m) THEN 1..Len(F.mn) ELSE {0}
MN(m, k) == IF k = 0 THEN FALSE ELSE F.mn[k]
Unsolved == { h \in 1..Len(lives) : lives[h].phase = "fresh" }
Solved   == { h \in 1..Len(lives) : lives[h].phase = "solved" }
Failed   == { h \in 1..Len(lives) : lives[h].phase = "attempted" }
Some     == 1..Len(lives)

\* predicted effect on the lives (a guess: infeasible targets fail)
Guess(op, h) ==
  CASE op.op = "solve" ->
         LET args == IF op.tgt \in {"neg", "bad", "int"} THEN "bad" ELSE "good"
             ex == ExpectSolve(lives[h], cls, op.m, op.mn, args)
             out == CASE ex = "refuse" -> "arg" [] ex = "frozen" -> "inst"
                      [] op.tgt \in {"infeas", "infeas2"} -> "solver"
                      [] ex = "maybe" -> "inst" [] OTHER -> "ok"
         IN  [lives EXCEPT ![h] = AfterSolve(@, op.m, op.mn, out)]
    [] op.op = "copy" -> Append(lives, lives[h])
    [] OTHER -> lives
Put(op) == /\ beh' = Append(beh, op) /\ lives' = Guess(op, op.h)
           /\ cat' = NoCat /\ UNCHANGED <<cls, len>>

Solve(h, m, k, t) == Put([op |-> "solve", h |-> h, m |-> m, mn |-> MN(m, k), tgt |-> t])
\* the method is drawn on its own, so that each is equally likely
Method(m) == cat' = <<m, 0>> /\ UNCHANGED <<beh, lives, cls, len>>
Weights == IF Solved # {} THEN F.after ELSE IF Failed # {} THEN F.failed ELSE F.before
Possible(c) == CASE c \in {"solve"} -> Unsolved # {}
                 [] c \in {"resolve", "foreign", "flip"} -> Solved # {}
                 [] c = "solve2" -> Unsolved # {}
                 [] c \in {"retry", "other"} -> Failed # {}
                 [] c = "copy" -> Len(lives) < F.objects
                 [] c = "unsupported" -> cls # "EF"
                 [] c = "setpar" -> \E i \in 1..Len(beh) : beh[i].op = "addcon" /\ beh[i].kind = "param"
                 [] c = "nonconv" -> cls = "EF" /\ Unsolved # {}
                 [] OTHER -> TRUE

Init == /\ len \in F.lens /\ cat = NoCat /\ lives = <<Fresh>>
        /\ \E c \in 1..Len(F.classes), b \in F.bounds, s \in F.size, k \in 1..Len(F.mu) :
             /\ cls = F.classes[c]
             /\ beh = <<[op |-> "new", cls |-> cls, bounds |-> b, size |-> s, mu |-> F.mu[k], v |-> <<c, k>>]>>

Pick == /\ cat = NoCat /\ Len(beh) <= len
        /\ \E i \in 1..Len(Weights) :
             /\ Possible(Weights[i])
             /\ cat' = <<Weights[i], i>>
        /\ UNCHANGED <<beh, lives, cls, len>>
\* a behaviour always contains a solve: if none was drawn, the last call is one
PickLast == /\ cat = NoCat /\ Len(beh) = len /\ Solved = {} /\ Unsolved # {}
            /\ cat' = <<"solve", 1>> /\ UNCHANGED <<beh, lives, cls, len>>
Do ==
  /\ cat \notin {NoCat, Done}
  /\ LET c == cat[1] IN
     \/ c \in {"solve", "solve2"} /\ \E m \in Meths : Method(m)
     \/ c \in AllMethods /\ \E h \in Unsolved, t \in F.tgt : \E k \in MNs(c) : Solve(h, c, k, t)
     \/ c = "resolve" /\ \E h \in Solved, t \in F.tgt :
          Put([op |-> "solve", h |-> h, m |-> lives[h].meth, mn |-> lives[h].mn, tgt |-> t])
     \/ c = "retry" /\ \E h \in Failed, t \in F.tgt :
          Put([op |-> "solve", h |-> h, m |-> lives[h].meth, mn |-> lives[h].mn, tgt |-> t])
     \/ c = "other" /\ \E h \in Failed, m \in AllM[cls], t \in {"mid", "slack"} : \E k \in MNs(m) :
          Solve(h, m, k, t)
     \/ c = "foreign" /\ \E h \in Solved, m \in AllM[cls], t \in {"mid", "slack"} : \E k \in MNs(m) :
          m # lives[h].meth /\ Solve(h, m, k, t)
     \/ c = "flip" /\ \E h \in Solved, t \in Easy :
          Put(IF TakesMN(cls, lives[h].meth)
              THEN [op |-> "solve", h |-> h, m |-> lives[h].meth, mn |-> ~lives[h].mn, tgt |-> t]
              ELSE [op |-> "perf", h |-> h])
     \/ c = "bad" /\ \E h \in Some, m \in AllM[cls] \cap {"sharpe", "qu", "erisk", "eret"}, t \in {"infeas", "neg", "bad", "int", "slack"} :
          \E k \in MNs(m) : Solve(h, m, k, t)
     \/ c = "unsupported" /\ \E h \in Some : Put([op |-> "unsup", h |-> h])
     \/ c = "mperf" /\ Put([op |-> "mperf", h |-> 1])
     \/ c = "objval" /\ \E k \in ObjFns : Put([op |-> "objval", h |-> 1, kind |-> k])
     \/ c = "nonconv" /\ \E h \in Unsolved, k \in (IF Focus = "C09" THEN {"easy"} ELSE {"easy", "hopeless"}) :
          Put([op |-> "nonconv", h |-> h, kind |-> k])
     \/ c = "perf" /\ \E h \in Some : Put([op |-> "perf", h |-> h])
     \/ c = "copy" /\ \E h \in Some : Put([op |-> "copy", h |-> h])
     \/ c = "setw" /\ \E h \in Some : Put([op |-> "setw", h |-> h])
     \/ c = "con" /\ \E h \in Some, k \in F.con : Put([op |-> "addcon", h |-> h, kind |-> k])
     \/ c = "badcon" /\ \E h \in Some, k \in {"notcallable", "infeas"} : Put([op |-> "addcon", h |-> h, kind |-> k])
     \/ c = "spoil" /\ \E h \in Some, o \in {"addcon", "addobj"} : Put([op |-> o, h |-> h, kind |-> "spoil"])
     \/ c = "param" /\ \E h \in Some : Put([op |-> "addcon", h |-> h, kind |-> "param"])
     \/ c = "setpar" /\ \E h \in Some : Put([op |-> "setpar", h |-> h])
     \/ c = "obj" /\ \E h \in Some, k \in F.obj : Put([op |-> "addobj", h |-> h, kind |-> k])
Finish == /\ cat = NoCat /\ Len(beh) > len
          /\ PrintT("BEH " \o ToJson(beh))
          /\ cat' = Done /\ UNCHANGED <<beh, lives, cls, len>>
Next == (IF Len(beh) = len /\ Solved = {} /\ Unsolved # {} THEN PickLast ELSE Pick) \/ Do \/ Finish
=============================================================================
