---------------------------------- MODULE Trace ----------------------------------
(***************************************************************************)
(* Common parts of the conformance specifications.                         *)
(***************************************************************************)
EXTENDS Fx, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TR_FILE)
B(x) == x = 1
C(name, props, ok) == IF ok THEN {} ELSE {[c |-> name, p |-> props, kf |-> ""]}
\* agreement to 1/k of 1 + |b|
Close(a, b, k) == a # <<>> /\ FLe(FAbs(FSub(a, b)), FMul(FRat(1, k), FAdd(FOne, FAbs(b))))
\* agreement to 1/k of the scale s
Near(a, b, s, k) == a # <<>> /\ FLe(FAbs(FSub(a, b)), FMul(FRat(1, k), s))
CloseV(u, v, k) == Len(u) = Len(v) /\ \A i \in 1..Len(v) : Close(u[i], v[i], k)
NearV(u, v, s, k) == Len(u) = Len(v) /\ \A i \in 1..Len(v) : Near(u[i], v[i], s, k)
NearM(A, M, s, k) == Len(A) = Len(M) /\ \A i \in 1..Len(M) : NearV(A[i], M[i], s, k)
\* the figures a verbose call printed are the figures it returned, rounded for printing
\* and without the request nothing is printed
ShownOK(e, vals) ==
  /\ ~B(e.loud)
  /\ B(e.verb) =>
    LET f == SelectSeq(vals, LAMBDA x : x # <<>>) IN
    /\ Len(e.shown) = Len(f)
    /\ \A k \in 1..Len(f) :
         LET s == e.shown[k] IN
         FLe(FAbs(FSub(s.v, IF B(s.pct) THEN FMul(FInt(100), f[k]) ELSE f[k])),
             FAdd(IF B(s.pct) THEN FRat(501, 10000) ELSE FRat(501, 100000), FMul(FRat(1, 10000000), FAbs(f[k]))))
\* the data handed to a call is as it was before
InputClauses(e) ==
  C("an input was modified by " \o e.op, {"C21"}, e.pre = e.post)
\* every entry is a number
Judge(e, clauses) ==
  IF e.op = "malformed"
  THEN C("the answer of " \o e.what \o " has an unexpected form", {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10",
         "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C23"}, FALSE)
  ELSE InputClauses(e) \cup clauses
Finite(v) == \A i \in 1..Len(v) : v[i] # <<>>
MaxAbsM(M) == LET RECURSIVE go(_, _)
                  go(i, m) == IF i > Len(M) THEN m ELSE go(i + 1, FMax(m, FMaxAbs(M[i])))
              IN  go(1, FZero)
Col(v) == [i \in 1..Len(v) |-> <<v[i]>>]
Flat(M) == [i \in 1..Len(M) |-> M[i][1]]
Diag(v) == FForce([i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE FZero]])
=============================================================================
