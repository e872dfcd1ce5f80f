------------------------------- MODULE MCLerp -------------------------------
(***************************************************************************)
(* The interpolation algorithm of the library, carried out in a toy format *)
(* with every way a compiler may contract it to fused multiply-adds, kept  *)
(* to the promises of Lerp.tla for all ends and a walk over all parameters.*)
(***************************************************************************)
EXTENDS Lerp, TLC
CONSTANTS P, W
F == MkFormat(P, W, 0)
VARIABLES vA, vB, vMd, vCon, vK
vars == <<vA, vB, vMd, vCon, vK>>

Codes == 0 .. IPow2(F.n) - 1
Data  == TLCEval([ k \in Codes |-> Decode(F, BFromInt(k)) ])
Half == IPow2(F.n - 1)
FinCodes == TLCEval({ k \in Codes : IsFin(Data[k]) })
\* the parameters in ascending order: negative codes downwards, then the positive ones
MaxPos == TLCEval(BToInt(Encode(F, MaxFin(F, 0))))
Par(k) == IF k <= MaxPos THEN Half + MaxPos - k ELSE k - MaxPos - 1          \* k in 0 .. 2 MaxPos + 1
NPar == 2 * MaxPos + 2

M(x, y) == Mul(F, vMd, x, y).v
A(x, y) == Add(F, vMd, x, y).v
S(x, y) == Sub(F, vMd, x, y).v
FM(x, y, z) == Fma(F, vMd, x, y, z).v
Pos(x) == LLe(Zero(0), x)
Neg0(x) == LLe(x, Zero(0))
Alg(a, b, t) ==
    IF (Neg0(a) /\ Pos(b)) \/ (Pos(a) /\ Neg0(b))
    THEN LET u == IF IsZero(a) THEN a ELSE M(S(LOne, t), a)
         IN CASE vCon = 0 -> A(M(t, b), u)
              [] vCon = 1 -> FM(t, b, u)
              [] vCon = 2 -> IF IsZero(a) THEN A(M(t, b), a) ELSE FM(S(LOne, t), a, M(t, b))
    ELSE IF LEq(t, LOne) THEN b
    ELSE LET x == IF vCon = 0 THEN A(a, M(t, S(b, a))) ELSE FM(t, S(b, a), a)
             gt(p, q) == LLe(q, p) /\ ~LLe(p, q)
         IN IF gt(t, LOne) = gt(b, a) THEN (IF gt(x, b) THEN x ELSE b) ELSE (IF gt(b, x) THEN x ELSE b)
T(k) == Data[Par(k)]
R(k) == Alg(Data[vA], Data[vB], T(k))

Init == vA \in FinCodes /\ vB \in FinCodes /\ vMd \in Modes /\ vCon \in 0 .. 2 /\ vK = 0
Next == vK < NPar - 1 /\ vK' = vK + 1 /\ UNCHANGED <<vA, vB, vMd, vCon>>

Good == LET a == Data[vA]  b == Data[vB]
        IN /\ PointOK(F, a, b, T(vK), R(vK))
           /\ vK > 0 => StepOK(a, b, T(vK - 1), R(vK - 1), T(vK), R(vK))
=============================================================================
