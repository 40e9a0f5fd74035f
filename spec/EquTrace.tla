--------------------------------- MODULE EquTrace ---------------------------------
(***************************************************************************)
(* Equivariance: the answer to a request is carried along by permuting and *)
(* renaming the assets, and does not depend on containers or orders of     *)
(* dictionaries; repeating a request repeats the answer.                   *)
(* An answer is [s, v, M]: sequences of numbers, of vectors over the       *)
(* assets, of matrices over the assets, each in the asset order of the     *)
(* request.  p: position of the variant's assets in the base request.      *)
(***************************************************************************)
EXTENDS Trace
VARIABLES tr, l, base
vars == <<tr, l, base>>
Ev == Traces[tr].ev[l]
\* systems that go through an iterative solver, and their tolerance 1/k
Tol(s) ==
  CASE s \in {"ef_minvol", "ef_utility", "ef_erisk", "ef_eret", "ef_sharpe", "es", "cv", "cd"} -> 500
    [] s \in {"cla_sharpe"} -> 100000
    [] s \in {"lw", "lw_sf", "lw_cc", "oas"} -> 1000000
    [] OTHER -> 10000000
Exact(s) == ~(s \in {"ef_minvol", "ef_utility", "ef_erisk", "ef_eret", "ef_sharpe", "es", "cv", "cd", "lp"})
EqN(a, b, k) == (a = <<>> /\ b = <<>>) \/ (a # <<>> /\ b # <<>> /\ Close(a, b, k))
EqV(u, v, k) == Len(u) = Len(v) /\ \A i \in 1..Len(v) : EqN(u[i], v[i], k)
PermV(v, p) == [i \in 1..Len(p) |-> v[p[i]]]
PermM(A, p) == [i \in 1..Len(p) |-> [j \in 1..Len(p) |-> A[p[i]][p[j]]]]
Shape(a, n) == /\ \A i \in 1..Len(a.v) : Len(a.v[i]) = n
               /\ \A i \in 1..Len(a.M) : Len(a.M[i]) = n /\ \A j \in 1..n : Len(a.M[i][j]) = n
Same(a, b, p, k) ==
  /\ EqV(a.s, b.s, k)
  /\ Len(a.v) = Len(b.v) /\ \A i \in 1..Len(b.v) : EqV(a.v[i], PermV(b.v[i], p), k)
  /\ Len(a.M) = Len(b.M) /\ \A i \in 1..Len(b.M) : LET Q == PermM(b.M[i], p) IN \A j \in 1..Len(p) : EqV(a.M[i][j], Q[j], k)
Body(e) ==
  IF e.op = "base" THEN C("the answer does not cover the assets (" \o e.sys \o ")", {"C23"}, e.out = "ok" => Shape(e.ans, e.n))
  ELSE IF base = <<>> THEN {}
  ELSE C("the answer does not cover the assets (" \o e.sys \o ")", {"C23"}, e.out = "ok" => Shape(e.ans, e.n))
  \cup C("a request was " \o (IF e.out = "ok" THEN "answered" ELSE "refused") \o " only after a " \o e.kind \o " of its inputs (" \o e.sys \o ")",
         {"C23"} \cup (IF e.kind = "same" THEN {"C21"} ELSE {}), e.out = base.out)
  \cup C("the answer changed with a " \o e.kind \o " of the inputs (" \o e.sys \o ")",
         {"C23"} \cup (IF e.kind = "same" THEN {"C21"} ELSE {}),
         (e.out = "ok" /\ base.out = "ok" /\ Shape(e.ans, e.n) /\ Shape(base.ans, e.n))
           => IF e.kind = "same" /\ Exact(e.sys) THEN e.ans = base.ans ELSE Same(e.ans, base.ans, e.perm, Tol(e.sys)))
Clauses(e) == Judge(e, Body(e))
Verdict(e) == [tr |-> tr, l |-> l, op |-> e.op, out |-> e.out, bad |-> Clauses(e), info |-> [n |-> IF e.op = "variant" /\ e.out = "ok" THEN 1 ELSE 0]]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ base = <<>>
Next == /\ l <= Len(Traces[tr].ev)
        /\ PrintT("EV " \o ToJson(Verdict(Ev)))
        /\ l' = l + 1 /\ tr' = tr
        /\ base' = IF Ev.op = "base" THEN [out |-> Ev.out, ans |-> Ev.ans] ELSE base
=============================================================================
