-------------------------------- MODULE PlotTrace --------------------------------
(***************************************************************************)
(* Plots: what was drawn is read back from the figure and compared with    *)
(* the portfolios, assets, clusters, matrices and weights it stands for.   *)
(***************************************************************************)
EXTENDS Clustering
VARIABLES tr, l,
          m      \* [kind, n, mu, S, lo, hi, names, cov, held, rule, free] or <<>>
vars == <<tr, l, m>>
Ev == Traces[tr].ev[l]
N == m.n

P22 == {"C22"}
Vol(w) == FSqrt(FQuad(w, m.S, w))
PtTol == 2000                               \* iterative solvers: 5e-4
Pt(p, r, s, k) == Close(p[1], s, k) /\ Close(p[2], r, k)
\* The drawn points are those of the solvable parameters, in order.  A parameter is judged as solvable (refused) when the
\* optimizer solves (refuses) it and its close neighbours; otherwise it may go either way.
RECURSIVE Follows(_, _)
Follows(pts, refs) ==
  IF refs = <<>> THEN pts = <<>>
  ELSE LET ws == refs[1]
           may  == \E k \in 1..3 : ws[k] # <<>>
           must == \A k \in 1..3 : ws[k] # <<>>
           ok   == {k \in 1..3 : ws[k] # <<>>}
           \* within what the neighbours span, and as much again: the ends of the frontier are steep, and a solver's slack in
           \* the one coordinate is a multiple of it in the other
           In(x, vals, k) == \E v, w \in vals : LET spread == FAbs(FSub(w, v)) IN
                               /\ FLe(FSub(FSub(v, spread), FMul(FRat(1, k), FAdd(FOne, FAbs(v)))), x)
                               /\ FLe(x, FAdd(FAdd(w, spread), FMul(FRat(1, k), FAdd(FOne, FAbs(w)))))
           RisksIn(p, k) == In(p[1], {Vol(ws[j]) : j \in ok}, k)
           MeansIn(p, k) == In(p[2], {FDot(m.mu, ws[j]) : j \in ok}, k)
       IN  \/ /\ ~must
              /\ Follows(pts, Tail(refs))
           \/ /\ may /\ pts # <<>>
              /\ IF must THEN RisksIn(pts[1], PtTol) /\ MeansIn(pts[1], PtTol) ELSE RisksIn(pts[1], 200) \/ MeansIn(pts[1], 200)
              /\ Follows(Tail(pts), Tail(refs))
Assets(e) ==
  LET own == [i \in 1..N |-> <<FSqrt(m.S[i][i]), m.mu[i]>>] IN
  C("the assets are not drawn at their own risk and return", P22,
    IF B(e.sa) THEN Len(e.assets) = 1 /\ Len(e.assets[1]) = N
                    /\ \A i \in 1..N : Pt(e.assets[1][i], own[i][2], own[i][1], 10000000)
    ELSE e.assets = <<>>)
  \cup C("the tickers are not written at their assets", P22,
    IF B(e.sa) /\ B(e.st)
    THEN /\ Len(e.notes) = N
         /\ \A i \in 1..N : \E k \in 1..N : e.notes[k][1] = m.names[i] /\ Pt(Tail(e.notes[k]), own[i][2], own[i][1], 10000000)
    ELSE e.notes = <<>>)
Frame(e) ==
  C("the plot is not on the requested axes, or others were drawn on", P22, B(e.drawn))
  \cup C("the figure was not saved", P22, B(e.saved))
Decor(e) == C("the axes do not say which is risk and which is return, or the legend is incomplete", P22, B(e.axes) /\ B(e.keyed))

\* the highest attainable return: fill the assets from the best mean down
RECURSIVE Fill(_, _, _)
Fill(rest, room, acc) ==
  IF rest = {} THEN acc
  ELSE LET i == CHOOSE x \in rest : \A y \in rest : FLe(m.mu[y], m.mu[x])
           take == FMin(room, FSub(m.hi[i], m.lo[i]))
       IN  Fill(rest \ {i}, FSub(room, take), FAdd(acc, FMul(take, m.mu[i])))
TopReturn == Fill(1..N, FSub(FOne, FSum(m.lo)), FDot(m.mu, m.lo))

EfClauses(e) ==
  C("plot_efficient_frontier failed with " \o e.exc, P22, B(e.fresh) => e.out = "ok")
  \cup (IF e.out # "ok" THEN {} ELSE
       Assets(e) \cup Frame(e) \cup Decor(e)
       \cup C("an efficient frontier has one curve", P22, Len(e.curve) = 1 /\ e.best = <<>>)
       \cup (IF Len(e.curve) # 1 THEN {} ELSE
            C("the curve is not that of the solvable parameters (" \o e.kind \o ")", P22, Follows(e.curve[1], e.ref))
            \cup C("a point of the curve misses its parameter", P22,
                   LET c == e.curve[1] IN
                   Len(c) = Len(e.params) => \A k \in 1..Len(c) :
                     CASE e.kind = "return" -> FLe(FSub(e.params[k], FRat(1, 2000)), c[k][2])
                       [] e.kind = "risk" -> FLe(c[k][1], FAdd(e.params[k], FRat(1, 2000)))
                       [] OTHER -> TRUE)
            \cup C("a point of the curve lies where no portfolio can be", P22,
                   \A k \in 1..Len(e.curve[1]) : FLe(e.curve[1][k][2], FAdd(TopReturn, FRat(1, 2000)))))
       \cup (IF e.op # "efdef" \/ Len(e.curve) # 1 THEN {} ELSE
            LET c == e.curve[1] IN
            C("the default range does not have the requested number of points", P22, Len(c) \in {e.points, e.points - 1, e.points - 2})
            \cup C("the default range does not reach the highest return", P22,
                   Len(c) = e.points => Close(c[Len(c)][2], TopReturn, 1000))))

\* the marked portfolio of a CLA plot
CanUp(w)   == {i \in 1..N : FLt(FAdd(w[i], FRat(1, 10000000)), m.hi[i])}
CanDown(w) == {i \in 1..N : FLt(FAdd(m.lo[i], FRat(1, 10000000)), w[i])}
HighestRatio(w) ==
  LET g == FMatVec(m.S, w)
      v == FDot(w, g)
      r == FDot(m.mu, w)
      d == [i \in 1..N |-> FSub(FMul(m.mu[i], v), FMul(r, g[i]))]
      t == FMul(FRat(1, 100000), FAdd(FMul(v, FMaxAbs(m.mu)), FMul(FAbs(r), FMaxAbs(g))))
  IN  \A i \in CanUp(w), j \in CanDown(w) : FLe(FSub(d[i], d[j]), t)
Curve(c, ref) == /\ Len(c) = Len(ref)
                 /\ \A k \in 1..Len(c) : /\ Close(c[k][1], ref[k][1], 10000000)
                                         /\ Close(c[k][2], ref[k][2], 10000000)
ClaClauses(e) ==
  C("plot_efficient_frontier failed with " \o e.exc, P22, e.out = "ok")
  \cup (IF e.out # "ok" THEN {} ELSE
       Assets(e) \cup Frame(e) \cup Decor(e)
       \cup C("the frontier plotted is not that of the problem", P22,
              Len(e.curve) = 1 /\ \E j \in 1..Len(e.ref) : Curve(e.curve[1], e.ref[j]))
       \cup C("plotting changed the held weights", P22, m.held # <<>> => e.held = m.held)
       \cup C("the marked portfolio is not at the performance of the held weights", P22,
              /\ Len(e.held) = N /\ Len(e.best) = 1 /\ Len(e.best[1]) = 1
              /\ Pt(e.best[1][1], FDot(m.mu, e.held), Vol(e.held), 10000000))
       \cup C("the marked portfolio is not the tangency portfolio", P22,
              m.held = <<>> => /\ Len(e.held) = N /\ Close(FSum(e.held), FOne, 10000000) /\ HighestRatio(e.held)))

Sorted(v) == FSort(v)
DendClauses(e) ==
  C("plot_dendrogram failed with " \o e.exc, P22, e.out = "ok")
  \cup (IF e.out # "ok" THEN {} ELSE
       LET rule == IF m.rule = "" THEN "single" ELSE m.rule
           L == Leaves(rule, m.cov)
       IN  Frame(e)
           \cup C("the clusters are not drawn at their distances", P22, CloseV(e.heights, Sorted(L.heights), 1000000))
           \cup C("the dendrogram is not labelled by the tickers in the order of the leaves", P22,
                  IF B(e.st) THEN Len(e.labels) = N /\ (Distinct(L.gap) => \A k \in 1..N : e.labels[k] = m.names[L.leaves[k]])
                  ELSE e.labels = <<>>)
           \cup C("an object without clusters is optimized with a warning, another left as it is", P22,
                  IF m.rule = "" THEN B(e.warned) /\ (Distinct(L.gap) => CloseV(e.held, Weights(m.cov, L.leaves), 100000000))
                  ELSE e.held = m.held))

Corr(S) == [i \in 1..N |-> [j \in 1..N |-> FDiv(S[i][j], FSqrt(FMul(S[i][i], S[j][j])))]]
CovClauses(e) ==
  C("plot_covariance failed with " \o e.exc, P22, e.out = "ok")
  \cup (IF e.out # "ok" THEN {} ELSE
       C("the image is not the matrix", P22, NearM(e.img, IF B(e.corr) THEN Corr(m.S) ELSE m.S, FOne, 10000000))
       \cup C("rows and columns are not labelled by the tickers", P22, B(e.st) => e.xl = e.want /\ e.yl = e.want)
       \cup C("the figure was not saved", P22, B(e.saved)))
BarClauses(e) ==
  C("plot_weights failed with " \o e.exc, P22, e.out = "ok")
  \cup (IF e.out # "ok" THEN {} ELSE
       Frame(e)
       \cup C("the bars are not the weights under their tickers, largest first", P22,
              /\ Len(e.bars) = N /\ Len(e.labels) = N /\ B(e.down)
              /\ \A k \in 1..(N - 1) : FLe(e.bars[k + 1], e.bars[k])
              /\ \A i \in 1..N : \E k \in 1..N : e.labels[k] = m.names[i] /\ Close(e.bars[k], e.w[i], 1000000000)))
Body(e) ==
  CASE e.op = "new" -> C("valid inputs were refused with " \o e.exc, P22, e.out = "ok")
    [] e.op \in {"ef", "efdef"} -> EfClauses(e)
    [] e.op = "efparam" -> C("an unknown ef_param was accepted", P22, e.out # "ok")
    [] e.op = "wrong" -> C("an object without a frontier was accepted", P22, e.out # "ok")
    [] e.op = "cla" -> ClaClauses(e)
    [] e.op = "dend" -> DendClauses(e)
    [] e.op = "cov" -> CovClauses(e)
    [] e.op = "bars" -> BarClauses(e)
    [] OTHER -> {}
Clauses(e) == Judge(e, Body(e))
Info(e) == [n |-> IF e.out = "ok" THEN 1 ELSE 0]
Verdict(e) == [tr |-> tr, l |-> l, op |-> e.op, out |-> e.out, bad |-> Clauses(e), info |-> Info(e)]

Init == tr \in 1..Len(Traces) /\ l = 1 /\ m = <<>>
Next == /\ l <= Len(Traces[tr].ev)
        /\ PrintT("EV " \o ToJson(Verdict(Ev)))
        /\ l' = l + 1 /\ tr' = tr
        /\ m' = CASE Ev.op = "new" ->
                       [kind |-> Ev.kind, n |-> Ev.n, mu |-> Ev.mu, S |-> Ev.S, lo |-> Ev.lo, hi |-> Ev.hi, names |-> Ev.names,
                        held |-> <<>>, rule |-> "",
                        cov |-> IF Ev.kind = "hrp" /\ Ev.X # <<>> THEN SampleCov(Ev.X) ELSE Ev.S]
                  [] Ev.op \in {"solve", "cla", "setw"} -> [m EXCEPT !.held = Ev.held]
                  [] Ev.op = "opt" /\ Ev.out = "ok" -> [m EXCEPT !.held = Ev.held, !.rule = Ev.rule]
                  [] Ev.op = "dend" -> [m EXCEPT !.held = Ev.held, !.rule = IF @ = "" THEN "single" ELSE @]
                  [] OTHER -> m
=============================================================================
