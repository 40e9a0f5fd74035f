---------------------------- MODULE OptimizerTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded histories of efficient-frontier optimizers with *)
(* the contract given by Lifecycle (what is answered) and Portfolio (what  *)
(* a right answer is).                                                     *)
(*                                                                         *)
(* TR_FILE holds one history per line: a sequence of events, each an API   *)
(* call with arguments, outcome and the weights held afterwards by every   *)
(* object of the history.  Every event is consumed, and every clause of    *)
(* the contract that it breaks is reported with the properties concerned.  *)
(***************************************************************************)
EXTENDS Portfolio, Lifecycle, Trace

VARIABLES tr,     \* which history
          l,      \* next event
          hs,     \* contract state of every object: a sequence of records
                  \* [life, P, cls, held, rf, spoilt, par]; spoilt: something that is
                  \* no convex program has been added; par: which of the constraints
                  \* has a named parameter as its right-hand side (0: none)
          aux     \* whose solution the shared solver variables hold:
                  \* [h, m, t]; m = "none" after a solver failure
vars == <<tr, l, hs, aux>>

Ev == Traces[tr].ev[l]
H(e) == hs[e.h]
\* a clause whose failure is a listed known finding when `known` holds
CK(name, props, ok, known, kf) ==
  IF ok THEN {} ELSE IF known THEN {[c |-> name, p |-> {"C04"}, kf |-> kf]} ELSE C(name, props, ok)

\* tolerance on weights, sums and constraints: the default solvers (OSQP among
\* them) are held to 3e-4, the interior point ones to 5e-5
FeasTol == IF Traces[tr].solver = "None" THEN FRat(3, 10000) ELSE FRat(1, 20000)
TgtTol(P) == FAdd(FeasTol, FMul(FRat(1, 2000), FAbs(P.t)))
\* objective tolerance: absolute part scaled to the problem, relative part
ObjTol(P, o) ==
  LET rel == FMul(FRat(1, 2000), FAbs(o))
      abs == CASE P.obj = "var"  -> FRat(1, 500000)
               [] P.obj = "semi" -> FRat(1, 5000000)
               [] P.obj = "sharpe" -> FRat(1, 2000)
               [] OTHER -> FRat(1, 50000)
      \* a kink in the objective: the weights are only good to a small multiple of the
      \* solver's tolerance, and each counts with the rate k
      kinks == IF Traces[tr].solver # "None" THEN FZero
               ELSE FSum([i \in 1..Len(P.terms) |-> IF P.terms[i].kind = "tc"
                          THEN FMul(P.terms[i].k, FMul(FInt(P.n), FRat(1, 20000))) ELSE FZero])
  IN  FAdd(FAdd(abs, rel), kinks)
Margin == FRat(1, 500)
\* the portfolios an answer is compared with
Rivals(P, w, wits) == IF Traces[tr].solver = "None" THEN InnerProbes(P, w, wits, FRat(1, 20000))
                      ELSE AdmissibleProbes(P, w, wits)

----------------------------------------------------------------------------
(* The problem a request poses to an object.                               *)

NoTarget(P) == [P EXCEPT !.tgt = "none", !.t = FZero, !.par = FZero]
Pose(hr, e) ==
  LET P0 == NoTarget(hr.P)
      mn == B(e.mn)
      P1 == IF mn /\ ~Shorting(P0)
            THEN [P0 EXCEPT !.lo = [i \in 1..P0.n |-> FInt(-1)], !.hi = [i \in 1..P0.n |-> FOne],
                            !.haslo = [i \in 1..P0.n |-> 1], !.hashi = [i \in 1..P0.n |-> 1]]
            ELSE P0
      P2 == [P1 EXCEPT !.budget = IF e.m = "convex" /\ ~B(e.sum1) THEN "free"
                                  ELSE IF mn THEN "zero" ELSE "one"]
      risk == CASE hr.cls = "EF" -> "vol" [] hr.cls = "ES" -> "semi"
                [] hr.cls = "CV" -> "cvar" [] hr.cls = "CD" -> "cdar"
      minobj == CASE hr.cls = "EF" -> "var" [] hr.cls = "ES" -> "semi"
                  [] hr.cls = "CV" -> "cvar" [] hr.cls = "CD" -> "cdar"
  IN  CASE e.m = "min"    -> [P2 EXCEPT !.obj = minobj]
        [] e.m = "sharpe" -> [P2 EXCEPT !.obj = "sharpe", !.par = e.arg]
        [] e.m = "qu"     -> [P2 EXCEPT !.obj = IF hr.cls = "EF" THEN "qu" ELSE "squ", !.par = e.arg]
        [] e.m = "erisk"  -> [P2 EXCEPT !.obj = "ret", !.tgt = risk, !.t = e.arg]
        [] e.m = "eret"   -> [P2 EXCEPT !.obj = minobj, !.tgt = "ret", !.t = e.arg]
        [] e.m = "convex" -> [P2 EXCEPT !.obj = "zero", !.terms = e.terms \o P2.terms]

NeedsMu(m) == m \in {"sharpe", "qu", "erisk", "eret"}
RECURSIVE MaxOf(_, _)
MaxOf(v, i) == IF i = 1 THEN v[1] ELSE FMax(v[i], MaxOf(v, i - 1))
\* validity of the arguments: "good", "grey" or "bad"
Args(hr, e) ==
  LET cls == hr.cls
      nomu == hr.P.mu = <<>>
      neg == FSign(e.arg) < 0
  IN  CASE e.argk = "bad" -> IF e.m = "sharpe" \/ (e.m = "erisk" /\ cls \in {"EF", "ES"})
                                \/ (e.m = "eret" /\ cls \in {"EF", "ES"}) THEN "bad" ELSE "grey"
        [] NeedsMu(e.m) /\ nomu -> "bad"
        [] e.m = "sharpe" -> IF FLe(MaxOf(hr.P.mu, hr.P.n), e.arg) THEN "bad" ELSE "good"
        [] e.m = "qu"     -> IF FSign(e.arg) <= 0 THEN "bad" ELSE "good"
        [] e.m = "erisk"  -> IF neg THEN (IF cls \in {"EF", "ES"} THEN "bad" ELSE "grey") ELSE "good"
        [] e.m = "eret"   -> IF e.argk = "int" THEN (IF cls \in {"EF", "ES"} THEN "bad" ELSE "good")
                             ELSE IF cls = "ES" /\ neg THEN "bad"
                             ELSE IF cls = "ES" /\ FLt(FMaxAbs(hr.P.mu), e.arg) THEN "grey"
                             ELSE IF cls = "CD" /\ neg THEN "grey" ELSE "good"
        [] OTHER -> "good"

OutKind(e) == IF e.out = "ok" THEN "ok"
              ELSE IF H(e).spoilt THEN "solver"
              ELSE IF e.exc = "InstantiationError" THEN "inst"
              ELSE IF Args(H(e), e) = "grey" THEN "solver"
              ELSE IF e.exc \in {"OptimizationError", "SolverError"} THEN "solver" ELSE "arg"

----------------------------------------------------------------------------
(* Clauses.  Each broken clause carries the properties it belongs to.      *)

Risky(cls) == IF cls = "EF" THEN "C02" ELSE "C03"
\* properties concerned by a solving request in its context
Ctx(e, hr) == (IF hr.life.phase # "fresh" THEN {"C05"} ELSE {})
           \cup (IF B(e.mn) THEN {"C08"} ELSE {})
           \cup (IF Len(hs) > 1 THEN {"C07"} ELSE {})
           \cup (IF e.m = "convex" \/ Len(hr.P.terms) > 0 THEN {"C09"} ELSE {})

HeldSame(e, except) ==
  \A k \in 1..Len(hs) : k = except \/ e.held[k] = hs[k].held
HeldClauses(e, except) ==
  C("an object other than the one addressed changed its weights", {"C07", "C05"}, HeldSame(e, except))

SolveClauses(e) ==
  LET hr   == H(e)
      args == Args(hr, e)
      ex   == IF hr.spoilt THEN "refuse" ELSE ExpectSolve(hr.life, hr.cls, e.m, B(e.mn), args)
      ctx  == Ctx(e, hr)
      P    == Pose(hr, e)
      ok   == e.out = "ok"
      w    == e.ret
      fin  == ok /\ B(e.finite) /\ Len(w) = P.n
      probes == IF fin THEN Rivals(P, w, e.wits) ELSE {}
      room == /\ ~ok /\ (ex = "answer" \/ (ex = "frozen" /\ e.exc # "InstantiationError"))
              /\ \E v \in Range(e.wits) \cup Lattice(P) : Roomy(P, v, Margin)
      o    == Obj(P, w)
      sharpeTerms == e.m = "sharpe" /\ Len(P.terms) > 0
      \* the default QP solver sometimes stops at its iteration limit
      gaveup == e.exc = "SolverError" /\ Traces[tr].solver = "None"
  IN  C("a request with invalid arguments, or on what is no convex program, was answered", {"C06"}, ~(ex = "refuse" /\ ok))
      \cup C("a solved object answered a foreign request", {"C05"}, ~(ex = "frozen" /\ ok))
      \cup C("a solved object refused with " \o e.exc \o " instead of InstantiationError", {"C05"},
             ~(ex = "frozen" /\ room))
      \cup C("a request with a clearly admissible portfolio was refused with " \o e.exc,
             {"C06"} \cup ctx, ~(ex = "answer" /\ room /\ ~gaveup))
      \cup C("a refused request changed the weights", {"C06"} \cup ctx, ok \/ e.held[e.h] = hr.held)
      \cup HeldClauses(e, e.h)
      \cup (IF ~ok \/ ex = "refuse" THEN {} ELSE
           C("weights are missing or not finite", {"C01", Risky(hr.cls)} \cup ctx, fin)
      \cup C("weights are not keyed by the tickers in order", {"C01", "C23"}, B(e.keys))
      \cup (IF ~fin THEN {} ELSE
           C("the returned and the held weights differ", {"C01", "C04"} \cup ctx, e.held[e.h] = w)
      \cup C("a bound is violated", {"C01"} \cup ctx, BoundsOK(P, w, FeasTol))
      \cup C("the budget is violated", {"C01", "C08"} \cup ctx, BudgetOK(P, w, FeasTol))
      \cup C("a constraint is violated", {"C01"} \cup ctx, ConsOK(P, w, FeasTol))
      \cup C("the target is violated", {"C01"} \cup ctx, TargetOK(P, w, TgtTol(P)))
      \cup C("an admissible portfolio is better", {Risky(hr.cls)} \cup ctx,
             sharpeTerms \/ Optimal(P, w, probes, ObjTol(P, o)))
      \cup C("bounds were amended without RuntimeWarning, or the warning came without amendment",
             {"C08"}, (B(e.warn) <=> (B(e.mn) /\ ~Shorting(hr.P))) \/ hr.life.phase # "fresh")))

AddClauses(e) ==
  LET hr == H(e)
      ex == IF ~B(e.valid) THEN "refuse"
            ELSE IF B(e.spoil) /\ hr.life.phase = "fresh" THEN "maybe" ELSE ExpectAdd(hr.life)
      ok == e.out = "ok"
  IN  C("an addition to a solved object was accepted", {"C05"}, ~(ex = "frozen" /\ ok))
      \cup C("an addition to a solved object was refused with " \o e.exc \o " instead of InstantiationError",
             {"C05"}, ~(ex = "frozen" /\ ~ok /\ e.exc # "InstantiationError"))
      \cup C("a valid addition to a fresh object was refused with " \o e.exc,
             {"C06"} \cup (IF Len(hs) > 1 THEN {"C07"} ELSE {}), ~(ex = "answer" /\ ~ok))
      \cup C("an invalid addition was accepted", {"C06"}, ~(ex = "refuse" /\ ok))
      \cup HeldClauses(e, 0)

\* update_parameter_value: the constraint has a new right-hand side from now on.
\* max_sharpe solves a transformed problem, whose parameters are its own.
SetParClauses(e) ==
  LET hr == H(e)
      known == B(e.known) /\ hr.par # 0
  IN  C("the parameter of a constraint could not be updated: " \o e.exc, {"C05"},
        ~known \/ e.out = "ok" \/ (hr.life.phase # "fresh" /\ hr.life.meth = "sharpe"))
      \cup C("a parameter that does not exist was updated", {"C06"}, known \/ e.out # "ok")
      \cup HeldClauses(e, 0)

----------------------------------------------------------------------------
(* Reported performance.                                                   *)

PerfVals(hr, w, rf) ==
  LET P == hr.P
      m == IF P.mu = <<>> THEN <<>> ELSE Ret(P, w)
      ratio(s) == IF m = <<>> THEN <<>> ELSE IF s[1] = 0 THEN "any" ELSE FDiv(FSub(m, rf), s)
  IN  CASE hr.cls = "EF" -> LET s == FSqrt(FMax(FZero, Var(P, w))) IN <<m, s, ratio(s)>>
        [] hr.cls = "ES" -> LET s == FSqrt(FMul(P.freq, Semivar(P, w))) IN <<m, s, ratio(s)>>
        [] hr.cls = "CV" -> <<m, Cvar(P, w)>>
        [] hr.cls = "CD" -> <<m, Cdar(P, w)>>
\* a ratio over a vanishing risk is not compared
Stable(hr, v, k) == ~(k = 3 /\ v[2] # <<>> /\ FLe(v[2], FRat(1, 10000)))
PerfClauses(e) ==
  LET hr == H(e)
      rf == IF hr.rf.set /\ hr.cls = "EF" THEN hr.rf.val ELSE e.arg
      ctx == (IF Len(hs) > 1 THEN {"C07"} ELSE {}) \cup (IF hr.life.phase # "fresh" THEN {"C05"} ELSE {})
  IN  HeldClauses(e, 0) \cup
      IF hr.held = <<>>
      THEN C("performance was reported although there are no weights", {"C04", "C06"}, e.out # "ok")
      ELSE LET v == PerfVals(hr, hr.held, rf)
               own == hr.cls \notin {"CV", "CD"} \/ (aux.h = e.h /\ aux.m \in {"min", "eret"})
               sane(x) == \* after a risk target: between the true figure and the target
                          aux.h = e.h /\ aux.m = "erisk" =>
                             /\ FLe(FSub(v[2], FRat(1, 2000)), x)
                             /\ FLe(x, FAdd(FMax(v[2], aux.t), FRat(1, 2000)))
           IN  CK("performance of held weights was refused with " \o e.exc, {"C04"} \cup ctx, e.out = "ok",
                  ~own /\ aux.m = "none", "KF1")
               \cup (IF e.out # "ok" THEN {} ELSE
                    C("the figures are too few, too many or not finite", {"C04"} \cup ctx,
                      Len(e.vals) = Len(v))
                    \cup C("other figures were printed than reported", {"C04"}, ShownOK(e, e.vals))
                    \cup UNION { CK("figure " \o ToString(k) \o " is not that of the held weights", {"C04"} \cup ctx,
                         \/ Len(e.vals) # Len(v)
                         \/ ~Stable(hr, v, k)
                         \/ v[k] = <<>> /\ e.vals[k] = <<>>
                         \/ v[k] # <<>> /\ e.vals[k] # <<>>
                              /\ Close(e.vals[k], v[k], IF k = 2 /\ hr.cls \in {"CV", "CD"} THEN 5000 ELSE 10000000),
                         k = 2 /\ ~own /\ (e.vals[k] = <<>> \/ sane(e.vals[k])), "KF1")
                         : k \in 1..Len(v) })

UnsupClauses(e) ==
  C(e.name \o " was accepted by a class that does not support it", {"C06"}, e.out # "ok")
  \cup HeldClauses(e, 0)

\* module-level portfolio_performance
MPerfClauses(e) ==
  LET P == [mu |-> e.mu, cov |-> e.cov]
      m == IF e.mu = <<>> THEN <<>> ELSE Ret(P, e.w)
      s == FSqrt(FMax(FZero, Var(P, e.w)))
      v == <<m, s, IF m = <<>> THEN <<>> ELSE FDiv(FSub(m, e.arg), s)>>
  IN  C("portfolio_performance(" \o e.form \o ") was refused with " \o e.exc, {"C04"}, ~B(e.valid) \/ e.out = "ok")
      \cup C("portfolio_performance(" \o e.form \o ") was answered", {"C04"}, B(e.valid) \/ e.out # "ok")
      \cup (IF e.out # "ok" \/ ~B(e.valid) THEN {} ELSE
           C("portfolio_performance(" \o e.form \o ") is not that of the weights", {"C04"},
             Len(e.vals) = 3 /\ \A k \in 1..3 :
               IF v[k] = <<>> THEN e.vals[k] = <<>>
               ELSE e.vals[k] # <<>> /\ Close(e.vals[k], v[k], 1000000000))
           \cup C("other figures were printed than reported", {"C04"}, ShownOK(e, e.vals)))
      \cup HeldClauses(e, 0)

----------------------------------------------------------------------------
(* Objective functions evaluated on numeric weights.                       *)
Sgn(e, x) == IF B(e.neg) THEN FNeg(x) ELSE x
DocValue(e) ==
  LET w == e.w
      P == [mu |-> e.mu, cov |-> e.M]
      t == [kind |-> e.kind, k |-> e.k, v |-> e.v, M |-> e.M]
  IN  CASE e.kind = "var" -> FQuad(w, e.M, w)
        [] e.kind = "ret" -> Sgn(e, Ret(P, w))
        [] e.kind = "sharpe" -> Sgn(e, FDiv(FSub(Ret(P, w), e.rf), FSqrt(Var(P, w))))
        [] e.kind = "qu" -> Sgn(e, FSub(Ret(P, w), FMul(FMul(Half, e.k), Var(P, w))))
        [] OTHER -> Term(P, t, w)
ObjValClauses(e) ==
  C("objective function " \o e.kind \o " failed with " \o e.exc, {"C09"}, e.out = "ok")
  \cup (IF e.out # "ok" THEN {} ELSE
        C("objective function " \o e.kind \o " does not have its documented value", {"C09"},
          e.val # <<>> /\ Close(e.val, DocValue(e), 1000000000)))
  \cup HeldClauses(e, 0)
\* no portfolio within the bounds comes near what a constraint demands
Hopeless(P) == \E k \in 1..Len(P.cons) : LET c == P.cons[k] IN
  /\ c.rel = "ge" /\ \A i \in 1..P.n : B(P.haslo[i]) /\ B(P.hashi[i])
  /\ FLt(FAdd(FSum([i \in 1..P.n |-> FMax(FMul(c.a[i], P.lo[i]), FMul(c.a[i], P.hi[i]))]), FRat(1, 10)), c.b)
NonConvClauses(e) ==
  LET hr == H(e)
      P0 == NoTarget(hr.P)
      P  == [P0 EXCEPT !.budget = IF B(e.sum1) THEN "one" ELSE "free", !.obj = "zero",
                       !.terms = e.terms, !.cons = e.cons]
      w == e.ret
      ok == e.out = "ok" /\ B(e.finite) /\ Len(w) = P.n
  IN  IF Hopeless(P)
      THEN C("nonconvex_objective answered although there is no admissible portfolio", {"C06", "C01"}, e.out # "ok")
           \cup C("a refused request changed the weights", {"C06"}, e.out = "ok" \/ e.held[e.h] = hr.held)
           \cup HeldClauses(e, e.h)
      ELSE
      C("nonconvex_objective failed with " \o e.exc, {"C09"}, e.out = "ok")
      \cup (IF e.out # "ok" THEN {} ELSE
           C("nonconvex_objective returned no finite weights", {"C09", "C01"}, ok)
           \cup C("weights are not keyed by the tickers in order", {"C01", "C23"}, B(e.keys))
           \cup (IF ~ok THEN {} ELSE
                C("a bound, budget or constraint is violated by nonconvex_objective", {"C09", "C01"},
                  Admissible(P, w, FRat(1, 10000)))
                \cup C("nonconvex_objective: an admissible portfolio is better", {"C09"},
                   Optimal(P, w, AdmissibleProbes(P, w, e.wits), FAdd(FRat(1, 2000), FMul(FRat(1, 200), FAbs(Obj(P, w))))))))
      \cup HeldClauses(e, e.h)

SetWClauses(e) ==
  LET hr == H(e)
  IN  IF hr.cls \in {"CV", "CD"}
      THEN C("set_weights was accepted by a class that does not support it", {"C06"}, e.out # "ok")
           \cup HeldClauses(e, 0)
      ELSE C("set_weights was refused", {"C16"}, e.out = "ok")
           \cup C("set_weights stored other weights", {"C16", "C04"}, e.out # "ok" \/ e.held[e.h] = e.w)
           \cup HeldClauses(e, e.h)

----------------------------------------------------------------------------
(* Transitions: the contract state after each event.                       *)

NewRec(e) ==
  [life |-> Fresh, cls |-> e.cls, spoilt |-> FALSE, par |-> 0, held |-> <<>>, rf |-> [set |-> FALSE, val |-> FZero],
   P |-> [n |-> e.n, mu |-> e.mu, cov |-> e.cov, R |-> e.R, bench |-> e.bench, freq |-> e.freq,
          beta |-> e.beta, haslo |-> e.haslo, lo |-> e.lo, hashi |-> e.hashi, hi |-> e.hi,
          cons |-> <<>>, norms |-> <<>>, terms |-> <<>>, budget |-> "one", obj |-> "var",
          par |-> FZero, tgt |-> "none", t |-> FZero]]

Body(e) ==
  CASE e.op = "new"    -> C("a valid optimizer could not be built: " \o e.exc, {"C06", "C01"}, ~B(e.valid) \/ e.out = "ok")
                          \cup C("an invalid optimizer was built", {"C06"}, B(e.valid) \/ e.out # "ok")
    [] e.op = "copy"   -> C("deepcopy failed with " \o e.exc, {"C07"}, e.out = "ok")
                          \cup (IF e.out # "ok" THEN {} ELSE
                               C("the copy does not hold the weights of the original", {"C07"},
                                 e.held[Len(hs) + 1] = H(e).held))
                          \cup HeldClauses(e, 0)
    [] e.op = "solve"  -> SolveClauses(e)
    [] e.op \in {"addcon", "addobj"} -> AddClauses(e)
    [] e.op = "setpar" -> SetParClauses(e)
    [] e.op = "perf"   -> PerfClauses(e)
    [] e.op = "setw"   -> SetWClauses(e)
    [] e.op = "unsup"  -> UnsupClauses(e)
    [] e.op = "mperf"  -> MPerfClauses(e)
    [] e.op = "objval" -> ObjValClauses(e)
    [] e.op = "nonconv" -> NonConvClauses(e)

Clauses(e) == Judge(e, Body(e))

Upd(e, r) == hs' = [hs EXCEPT ![e.h] = r]
Apply(e) ==
  CASE e.op = "new"    -> hs' = IF e.out = "ok" /\ B(e.valid) THEN Append(hs, NewRec(e)) ELSE hs
    [] e.op = "copy"   -> hs' = IF e.out = "ok" THEN Append(hs, H(e)) ELSE hs
    [] e.op = "solve"  -> Upd(e, [H(e) EXCEPT !.life = AfterSolve(@, e.m, B(e.mn), OutKind(e)),
                                       !.held = IF e.out = "ok" THEN e.held[e.h] ELSE @,
                                       !.rf = IF e.out = "ok" /\ e.m = "sharpe"
                                              THEN [set |-> TRUE, val |-> e.arg] ELSE @])
    [] e.op = "addcon" -> Upd(e, IF e.out = "ok" THEN [H(e) EXCEPT !.P.cons = @ \o e.cons, !.P.norms = @ \o e.norms,
                                                                        !.spoilt = @ \/ B(e.spoil),
                                                                        !.par = IF B(e.par) THEN Len(H(e).P.cons) + 1 ELSE @]
                                 ELSE H(e))
    [] e.op = "setpar" -> Upd(e, IF e.out = "ok" /\ B(e.known) /\ H(e).par # 0 THEN [H(e) EXCEPT !.P.cons[H(e).par].b = e.b] ELSE H(e))
    [] e.op = "addobj" -> Upd(e, IF e.out = "ok" /\ B(e.spoil) THEN [H(e) EXCEPT !.spoilt = TRUE]
                                 ELSE IF e.out = "ok" THEN [H(e) EXCEPT !.P.terms = Append(@, e.term)] ELSE H(e))
    [] e.op \in {"perf", "unsup", "mperf", "objval", "malformed"} -> UNCHANGED hs
    [] e.op = "nonconv" -> Upd(e, IF e.out = "ok" THEN [H(e) EXCEPT !.held = e.held[e.h]] ELSE H(e))
    [] e.op = "setw"   -> Upd(e, IF e.out = "ok" THEN [H(e) EXCEPT !.held = e.held[e.h]] ELSE H(e))

Info(e) == IF e.op = "solve" /\ e.out = "ok" /\ B(e.finite)
           THEN LET P == Pose(H(e), e) IN [n |-> Cardinality(Rivals(P, e.ret, e.wits)), ph |-> H(e).life.phase]
           ELSE [n |-> 0, ph |-> IF e.op \in {"new", "malformed"} THEN "none" ELSE H(e).life.phase]
Verdict(e) == [tr |-> tr, l |-> l, op |-> e.op, out |-> e.out, bad |-> Clauses(e), info |-> Info(e)]

AuxAfter(e) ==
  IF e.op # "solve" THEN aux
  ELSE IF e.out = "ok" THEN [h |-> e.h, m |-> e.m, t |-> e.arg]
  ELSE IF e.exc \in {"InstantiationError", "ValueError", "TypeError", "NotImplementedError"} THEN aux
  ELSE [h |-> 0, m |-> "none", t |-> FZero]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ hs = <<>> /\ aux = [h |-> 0, m |-> "none", t |-> FZero]
Next == /\ l <= Len(Traces[tr].ev)
        /\ PrintT("EV " \o ToJson(Verdict(Ev)))
        /\ l' = l + 1 /\ tr' = tr
        /\ Apply(Ev)
        /\ aux' = AuxAfter(Ev)
View == <<tr, l>>
=============================================================================
