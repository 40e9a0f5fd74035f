-------------------------------- MODULE FxTest --------------------------------
(* Prints the value of every overridden operator on the argument tuples of  *)
(* IN_FILE; run once with and once without the Java class, the harness      *)
(* compares both with each other.                                           *)
EXTENDS Fx, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.IN_FILE)
VARIABLE i
One(c) == <<FAdd(c.a, c.b), FSub(c.a, c.b), FMul(c.a, c.b), FDiv(c.a, c.b), FSqrt(FAbs(c.a)),
            FCmp(c.a, c.b), FLe(c.a, c.b), FLt(c.a, c.b), FRat(c.p, c.q), FInt(c.p), FLn(FAbs(c.b)), FExp(c.e), FPowR(FAbs(c.b), c.e),
            FSum(c.v), FDot(c.u, c.v), FVAdd(c.u, c.v), FVSub(c.u, c.v), FScale(c.a, c.v),
            FMatVec(c.M, c.v), FQuad(c.u, c.M, c.v), FMatMul(c.M, c.M), FSort(c.v), FNorm1(c.v),
            FMaxAbs(c.v), FSolve(c.M, c.M2), FFloor(c.a)>>
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1 /\ PrintT("FX " \o ToJson(One(Cases[i])))
=============================================================================
