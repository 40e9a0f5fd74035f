---------------------------- MODULE OptimizerDesign ----------------------------
(***************************************************************************)
(* The mechanism of the convex optimizers, shaped like the implementation: *)
(* a constraint list with identities, an objective, a list of additional   *)
(* objectives, a problem built at the first solve and re-used afterwards,  *)
(* parameters that live inside it, shallow-copied objects that share it,   *)
(* and the auxiliary variables that the downside-risk classes read their   *)
(* performance from.  TLC explores every history of at most MaxOps calls   *)
(* on at most MaxObjs objects and checks that the mechanism implements the *)
(* contract of Lifecycle: what is answered is the problem that the user    *)
(* posed, solved objects are frozen, and objects do not disturb each other.*)
(*                                                                         *)
(* The solver is abstract: a problem is a content (objective, constraints, *)
(* budget, target); it is solvable unless its target is "inf"; the weights *)
(* held afterwards are that content (its solution, as a token).            *)
(*                                                                         *)
(* Bug selects a deliberate defect, used to show that the invariants       *)
(* would notice it ("none" for the mechanism as it is).                    *)
(***************************************************************************)
EXTENDS Lifecycle, TLC

CONSTANTS Cls, MaxOps, MaxObjs, LongOnly, Bug

VARIABLES objs,   \* sequence of implementation objects
          probs,  \* problems built so far (shared by copies)
          pars,   \* parameter values, by parameter identity
          nid,    \* next identity
          ghost,  \* sequence of contract states [life, con, terms]
          last,   \* what the last call did
          aux,    \* [h, p]: object and problem content of the last successful solve
          n       \* calls so far
vars == <<objs, probs, pars, nid, ghost, last, aux, n>>

Methods == { m \in AllMethods \ {"convex"} : Supported(Cls, m) }
Targets == {"t1", "t2", "inf"}
NoRes == [op |-> "none"]

Nothing == [base |-> "none", terms |-> <<>>, cons |-> {}, target |-> "none"]
Failed == [Nothing EXCEPT !.base = "failed"]
Con(id, k) == [id |-> id, k |-> <<k, 0, "">>]
Tgt(id, p, m) == [id |-> id, k |-> <<"tgt", p, m>>]
NewObj == [cons |-> <<Con(1, "lb"), Con(2, "ub")>>, addl |-> <<>>, obj |-> [id |-> 0, base |-> "none", terms |-> <<>>, par |-> 0],
           opt |-> 0, iobj |-> 0, icons |-> {}, held |-> Nothing, mn |-> {}]
NewGhost == [life |-> Fresh, con |-> <<>>, terms |-> <<>>]

Init == /\ objs = <<NewObj>> /\ ghost = <<NewGhost>> /\ probs = <<>> /\ pars = <<>>
        /\ nid = 3 /\ last = NoRes /\ aux = [h |-> 0, p |-> Nothing] /\ n = 0

Ids(cs) == { cs[i].id : i \in 1..Len(cs) }
Kinds(cs) == { cs[i].k : i \in 1..Len(cs) }

----------------------------------------------------------------------------
(* What is in a problem.  A target constraint is written <<"tgt", par>>.   *)
Base(m) == CASE m = "min" -> "risk" [] m = "sharpe" -> "sharpe" [] m = "qu" -> "utility"
             [] m = "erisk" -> "ret" [] m = "eret" -> "risk"
ParVal(p) == IF p = 0 THEN "none" ELSE pars[p]
ParOf(pb) == LET S == { pb.cons[i].k[2] : i \in { j \in 1..Len(pb.cons) : pb.cons[j].k[1] = "tgt" } }
             IN  IF S # {} THEN CHOOSE x \in S : TRUE ELSE pb.obj.par
KindName(k) == k[1]
\* the mathematical content of a problem under given parameter values
Content(pb, v) ==
  [base |-> pb.obj.base, terms |-> pb.obj.terms,
   cons |-> { KindName(pb.cons[i].k) : i \in 1..Len(pb.cons) } , target |-> v]

\* the content that the contract demands
Demand(g, m, mn, t) ==
  [base |-> Base(m), terms |-> g.terms,
   cons |-> (IF mn /\ LongOnly THEN {"lb-1", "ub1"} ELSE {"lb", "ub"})
            \cup { g.con[i] : i \in 1..Len(g.con) }
            \cup (IF m = "sharpe" THEN {"scale"} ELSE IF mn THEN {"sum0"} ELSE {"sum1"})
            \cup (IF m \in {"erisk", "eret"} THEN {"tgt"} ELSE {}),
   target |-> IF m = "sharpe" THEN t ELSE IF Parameterised(m) THEN t ELSE "none"]

----------------------------------------------------------------------------
(* Calls.                                                                  *)
Ghosted(h, m, mn, out) ==
  ghost' = [ghost EXCEPT ![h].life = AfterSolve(@, m, mn, out)]
Report(op, h, m, mn, t, out, content) ==
  last' = [op |-> op, h |-> h, m |-> m, mn |-> mn, t |-> t, out |-> out, content |-> content,
           ghost |-> ghost[h], before |-> [k \in 1..Len(objs) |-> objs[k].held]]

Refuse(op, h, m, mn, t, o, why) ==
  /\ objs' = [objs EXCEPT ![h] = o] /\ UNCHANGED <<probs, pars, aux>>
  /\ Ghosted(h, m, mn, why) /\ Report(op, h, m, mn, t, why, Nothing)

\* the common tail of every method: build or re-use the problem, then solve
Run(h, o, ps, m, mn, t, fresh) ==
  LET built == o.opt = 0
      pb    == IF built THEN [obj |-> o.obj, cons |-> o.cons] ELSE probs[o.opt]
      same  == built \/ Bug = "noguard" \/ (o.obj.id = o.iobj /\ Ids(o.cons) = o.icons)
      o1    == IF built THEN [o EXCEPT !.opt = Len(probs) + 1, !.iobj = o.obj.id, !.icons = Ids(o.cons)] ELSE o
      v     == LET p == ParOf(pb) IN IF m = "sharpe" THEN t ELSE IF p = 0 THEN "none" ELSE ps[p]
      c     == Content(pb, v)
      ok    == v # "inf"
  IN  IF ~same THEN Refuse("solve", h, m, mn, t, o, "inst") /\ UNCHANGED nid
      ELSE /\ probs' = IF built THEN Append(probs, pb) ELSE probs
           /\ pars' = ps /\ nid' = fresh
           /\ objs' = [objs EXCEPT ![h] = IF ok THEN [o1 EXCEPT !.held = c] ELSE o1]
           /\ aux' = IF ok THEN [h |-> h, p |-> c] ELSE [h |-> 0, p |-> Failed]
           /\ Ghosted(h, m, mn, IF ok THEN "ok" ELSE "solver")
           /\ Report("solve", h, m, mn, t, IF ok THEN "ok" ELSE "solver", c)

BoundsFor(o, mn, id) ==    \* _make_weight_sum_constraint
  IF mn /\ LongOnly
  THEN LET cs == o.cons \o <<Con(id, "lb-1"), Con(id + 1, "ub1")>>
       IN  IF Bug = "keepbounds" THEN cs
           ELSE IF Bug = "dropuser" /\ Len(cs) > 2 THEN SubSeq(cs, 1, Len(cs) - 2) ELSE SubSeq(cs, 3, Len(cs))
  ELSE o.cons

Defined(o, m) ==          \* is_parameter_defined, for this method's parameter
  CASE m \in {"erisk", "eret"} -> \E i \in 1..Len(o.cons) : o.cons[i].k[1] = "tgt" /\ o.cons[i].k[3] = m
    [] m = "qu" -> o.obj.par # 0
    [] OTHER -> FALSE
ParId(o, m) == IF m = "qu" THEN o.obj.par
               ELSE (CHOOSE c \in { o.cons[i] : i \in 1..Len(o.cons) } : c.k[1] = "tgt" /\ c.k[3] = m).k[2]

Solve(h, m, mn, t) ==
  LET o == objs[h]
      p == Len(pars) + 1
      terms == IF Bug = "forget" /\ m = "eret" THEN <<>> ELSE o.addl
      newobj == [id |-> nid, base |-> Base(m), terms |-> terms, par |-> IF m = "qu" THEN p ELSE 0]
  IN  IF Defined(o, m)
      THEN IF o.mn # {mn} /\ Bug # "nomn" THEN Refuse("solve", h, m, mn, t, o, "inst") /\ UNCHANGED nid
           ELSE Run(h, o, IF Bug = "stale" THEN pars ELSE [pars EXCEPT ![ParId(o, m)] = t], m, mn, t, nid)
      ELSE \* the objective is replaced before anything is refused
           LET o1 == [o EXCEPT !.obj = newobj]
               ps == IF Parameterised(m) THEN Append(pars, t) ELSE pars
           IN  IF m = "sharpe"
               THEN \* constraints rewritten wholesale
                    LET o2 == [o1 EXCEPT !.cons = Append([i \in 1..Len(o.cons) |-> [id |-> nid + i, k |-> o.cons[i].k]],
                                                         Con(nid + Len(o.cons) + 1, "scale"))]
                    IN  Run(h, o2, ps, m, mn, t, nid + Len(o.cons) + 2)
               ELSE IF o.opt # 0 /\ Bug # "noguard"
               THEN Refuse("solve", h, m, mn, t, o1, "inst") /\ UNCHANGED nid
               ELSE LET cs0 == IF m \in {"erisk", "eret"} THEN Append(o.cons, Tgt(nid + 1, p, m)) ELSE o.cons
                        o2 == [o1 EXCEPT !.cons = cs0, !.mn = {mn}]
                        cs == Append(BoundsFor(o2, mn, nid + 2), Con(nid + 4, IF mn THEN "sum0" ELSE "sum1"))
                    IN  Run(h, [o2 EXCEPT !.cons = cs], ps, m, mn, t, nid + 5)

AddCon(h) ==
  LET o == objs[h] k == "user" \o ToString(Len(ghost[h].con) + 1) IN
  /\ IF o.opt # 0 /\ Bug # "addlate"
     THEN /\ UNCHANGED <<objs, ghost, nid>> /\ Report("add", h, "none", FALSE, "none", "inst", Nothing)
     ELSE /\ objs' = [objs EXCEPT ![h].cons = Append(@, Con(nid, k))]
          /\ ghost' = [ghost EXCEPT ![h].con = Append(@, k)]
          /\ nid' = nid + 1 /\ Report("add", h, "none", FALSE, "none", "ok", Nothing)
  /\ UNCHANGED <<probs, pars, aux>>
AddObj(h) ==
  LET o == objs[h] IN
  /\ IF o.opt # 0
     THEN /\ UNCHANGED <<objs, ghost>> /\ Report("add", h, "none", FALSE, "none", "inst", Nothing)
     ELSE /\ objs' = [objs EXCEPT ![h].addl = Append(@, "term")]
          /\ ghost' = [ghost EXCEPT ![h].terms = Append(@, "term")]
          /\ Report("add", h, "none", FALSE, "none", "ok", Nothing)
  /\ UNCHANGED <<probs, pars, aux, nid>>
Copy(h) ==
  /\ Len(objs) < MaxObjs
  /\ objs' = Append(objs, objs[h]) /\ ghost' = Append(ghost, ghost[h])
  /\ Report("copy", h, "none", FALSE, "none", "ok", Nothing)
  /\ UNCHANGED <<probs, pars, aux, nid>>

Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E h \in 1..Len(objs) :
             \/ \E m \in Methods, t \in Targets, mn \in BOOLEAN :
                  /\ mn => TakesMN(Cls, m)
                  /\ ~Parameterised(m) /\ m # "sharpe" => t = "t1"
                  /\ m = "qu" => t # "inf"
                  /\ Solve(h, m, mn, t)
             \/ Len(ghost[h].con) < 2 /\ AddCon(h)
             \/ Len(ghost[h].terms) < 1 /\ AddObj(h)
             \/ Copy(h)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The contract.                                                           *)
IsSolve == last.op = "solve"
\* what is answered is what was asked (C01, C02, C03, C09)
AnswersRight == IsSolve /\ last.out = "ok" =>
  last.content = Demand(last.ghost, last.m, last.mn, last.t)
\* solved objects are frozen (C05)
Frozen == IsSolve => LET ex == ExpectSolve(last.ghost.life, Cls, last.m, last.mn, "good")
                     IN  /\ ex = "frozen" => last.out = "inst"
                         /\ ex = "refuse" => last.out # "ok"
                         \* a request that must be answered is answered unless it has no solution (C06)
                         /\ ex = "answer" /\ last.t # "inf" => last.out = "ok"
AddsFrozen == last.op = "add" =>
  LET ex == ExpectAdd(last.ghost.life) IN (ex = "frozen" => last.out = "inst") /\ (ex = "answer" => last.out = "ok")
\* a failed request leaves the weights, and no call changes another object's (C06, C07)
Isolated == last.op # "none" => \A k \in 1..Len(last.before) :
  (k # last.h \/ last.out # "ok") => objs[k].held = last.before[k]
\* the original list of constraints a user gave is in force in every object (C01, C07, C08)
UserConsKept == \A h \in 1..Len(objs) : \A i \in 1..Len(ghost[h].con) :
  ghost[h].con[i] \in { KindName(k) : k \in Kinds(objs[h].cons) }
\* market-neutral re-mapping leaves exactly one pair of bounds (C08)
OneBoundPair == \A h \in 1..Len(objs) :
  LET K == { KindName(k) : k \in Kinds(objs[h].cons) } IN ~({"lb", "lb-1"} \subseteq K)
\* finding KF1: the classes that report from the solver's variables report the
\* right thing only while aux is their own solution (checked with Cls = CV/CD)
OwnAux == \A h \in 1..Len(objs) : objs[h].held # Nothing /\ aux.h = h => aux.p = objs[h].held
\* the design without KF1 would satisfy this; it is violated for CV/CD by design
AuxAlways == \A h \in 1..Len(objs) : objs[h].held # Nothing => aux.p = objs[h].held

View == <<objs, probs, pars, ghost, last, aux, n>>
=============================================================================
