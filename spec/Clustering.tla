------------------------------ MODULE Clustering ------------------------------
(***************************************************************************)
(* Hierarchical risk parity: covariance and correlation of the history,    *)
(* the distance matrix, agglomerative clustering with any of the seven     *)
(* linkage rules, the order of the leaves, and the recursive bisection.    *)
(***************************************************************************)
EXTENDS Trace, FiniteSets

(* Moments of a return history X (rows are periods).                       *)
Column(X, i) == [t \in 1..Len(X) |-> X[t][i]]
SampleCov(X) ==
  LET T == Len(X)
      n == Len(X[1])
      mean == [i \in 1..n |-> FMean(Column(X, i))]
      d == [i \in 1..n |-> [t \in 1..T |-> FSub(X[t][i], mean[i])]]
  IN  [i \in 1..n |-> [j \in 1..n |-> FDiv(FDot(d[i], d[j]), FInt(T - 1))]]
Dist(S) ==
  LET n == Len(S)
      sd == [i \in 1..n |-> FSqrt(S[i][i])]
  IN  [i \in 1..n |-> [j \in 1..n |->
        IF i = j THEN FZero
        ELSE LET q == FDiv(FSub(FOne, FDiv(S[i][j], FMul(sd[i], sd[j]))), FInt(2))
             IN  FSqrt(FMax(FZero, FMin(FOne, q)))]]

----------------------------------------------------------------------------
(* Agglomerative clustering.  A cluster is [id, leaves], leaves in order.  *)
(* cl: sequence of clusters; D: their distances; gap: the least difference *)
(* between the chosen and any other distance so far (ties are not judged). *)
Merge(rule, a, b, c, dac, dbc, dab) ==          \* a, b, c: sizes
  LET sq(x) == FMul(x, x) IN
  CASE rule = "single"   -> FMin(dac, dbc)
    [] rule = "complete" -> FMax(dac, dbc)
    [] rule = "average"  -> FDiv(FAdd(FMul(FInt(a), dac), FMul(FInt(b), dbc)), FInt(a + b))
    [] rule = "weighted" -> FDiv(FAdd(dac, dbc), FInt(2))
    [] rule = "ward"     -> FSqrt(FMax(FZero, FDiv(FSub(FAdd(FMul(FInt(a + c), sq(dac)), FMul(FInt(b + c), sq(dbc))), FMul(FInt(c), sq(dab))),
                                       FInt(a + b + c))))
    [] rule = "centroid" -> FSqrt(FMax(FZero, FSub(FDiv(FAdd(FMul(FInt(a), sq(dac)), FMul(FInt(b), sq(dbc))), FInt(a + b)),
                                       FDiv(FMul(FInt(a * b), sq(dab)), FInt((a + b) * (a + b))))))
    [] rule = "median"   -> FSqrt(FMax(FZero, FSub(FDiv(FAdd(sq(dac), sq(dbc)), FInt(2)), FDiv(sq(dab), FInt(4)))))
RECURSIVE Cluster(_, _, _, _, _)
Cluster(rule, cl, D, nextid, gap) ==
  IF Len(cl) = 1 THEN [leaves |-> cl[1].leaves, gap |-> gap, heights |-> <<>>]
  ELSE LET k == Len(cl)
           pairs == {p \in (1..k) \X (1..k) : p[1] < p[2]}
           best == CHOOSE p \in pairs : \A q \in pairs : FLe(D[p[1]][p[2]], D[q[1]][q[2]])
           d    == D[best[1]][best[2]]
           others == {FSub(D[q[1]][q[2]], d) : q \in pairs \ {best}}
           g2   == IF others = {} THEN gap ELSE FMin(gap, CHOOSE x \in others : \A y \in others : FLe(x, y))
           A == cl[best[1]]
           Bc == cl[best[2]]
           \* the cluster formed earlier comes first
           joined == [id |-> nextid, leaves |-> IF A.id < Bc.id THEN A.leaves \o Bc.leaves ELSE Bc.leaves \o A.leaves]
           keep == SelectSeq([i \in 1..k |-> i], LAMBDA i : i # best[1] /\ i # best[2])
           cl2 == [i \in 1..Len(keep) |-> cl[keep[i]]] \o <<joined>>
           row == [i \in 1..Len(keep) |->
                     Merge(rule, Len(A.leaves), Len(Bc.leaves), Len(cl[keep[i]].leaves),
                           D[best[1]][keep[i]], D[best[2]][keep[i]], d)]
           kk == Len(keep)
           D2 == [i \in 1..(kk + 1) |-> [j \in 1..(kk + 1) |->
                    IF i = j THEN FZero
                    ELSE IF i = kk + 1 THEN row[j] ELSE IF j = kk + 1 THEN row[i]
                    ELSE D[keep[i]][keep[j]]]]
           r == Cluster(rule, cl2, D2, nextid + 1, g2)
       IN  [r EXCEPT !.heights = <<d>> \o @]
Leaves(rule, S) == LET n == Len(S)
                   IN Cluster(rule, [i \in 1..n |-> [id |-> i, leaves |-> <<i>>]], Dist(S), n + 1, FOne)

----------------------------------------------------------------------------
(* Recursive bisection.                                                    *)
ClusterVar(S, items) ==
  LET k == Len(items)
      inv == [i \in 1..k |-> FDiv(FOne, S[items[i]][items[i]])]
      w == FScale(FDiv(FOne, FSum(inv)), inv)
      sub == [i \in 1..k |-> [j \in 1..k |-> S[items[i]][items[j]]]]
  IN  FQuad(w, sub, w)
RECURSIVE Bisect(_, _, _, _)
Bisect(S, items, share, w) ==                  \* w: weights so far, by asset
  IF Len(items) = 1 THEN [w EXCEPT ![items[1]] = share]
  ELSE LET h == Len(items) \div 2
           a == SubSeq(items, 1, h)
           b == SubSeq(items, h + 1, Len(items))
           va == ClusterVar(S, a)
           vb == ClusterVar(S, b)
           alpha == FSub(FOne, FDiv(va, FAdd(va, vb)))
       IN  Bisect(S, b, FMul(share, FSub(FOne, alpha)), Bisect(S, a, FMul(share, alpha), w))
Weights(S, order) == Bisect(S, order, FOne, [i \in 1..Len(S) |-> FZero])

Distinct(gap) == FLt(FRat(1, 100000), gap)      \* correlations are rounded to 6 digits by one of the paths
Rules == {"single", "complete", "average", "weighted", "ward", "centroid", "median"}
===============================================================================
