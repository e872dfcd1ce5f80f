------------------------------- MODULE MC754 -------------------------------
(***************************************************************************)
(* The rounding and arithmetic of IEEE754.tla against their declarative    *)
(* definitions, for every operand of a toy format: the exact result is     *)
(* compared with every representable value.                                *)
(***************************************************************************)
EXTENDS IEEE754, FiniteSets, TLC
CONSTANTS P, W, IB, Ops
F == MkFormat(P, W, IB)

VARIABLES vOp, vMd, vA, vB, vC
vars == <<vOp, vMd, vA, vB, vC>>

Codes == TLCEval({ k \in 0 .. IPow2(F.n) - 1 : Canonical(F, BFromInt(k)) })
Data  == TLCEval([ k \in Codes |-> Decode(F, BFromInt(k)) ])
\* value of a finite datum as an integer multiple of 2^(2q)  (small: fits TLC's integers)
RECURSIVE I2(_)
I2(n) == IF n = 0 THEN 1 ELSE 2 * I2(n - 1)
Sc == 2 * F.q
Val(d) == IF d.c = "zero" THEN 0 ELSE (IF d.s = 1 THEN -1 ELSE 1) * BToInt(d.m) * I2(d.e - Sc)
FinCodes == TLCEval({ k \in Codes : IsFin(Data[k]) })
Vals == TLCEval({ Val(Data[k]) : k \in FinCodes })
ValOf == TLCEval([ k \in FinCodes |-> Val(Data[k]) ])
MaxV == Val(MaxFin(F, 0))
UlpMax == I2(F.qmax - Sc)

AbsI(n) == IF n < 0 THEN -n ELSE n
EvenSig(d) == d.c = "zero" \/ ~BIsOdd(d.m)

\* the set of values that IEEE-754 allows as the rounding of num/den (den > 0): declaratively
DeclOK(r, num, den, m) ==
    LET isf == IsFin(r)
        u == TLCEval(IF isf THEN Val(r) ELSE 0)
        ud == u * den
        up == isf /\ ud >= num /\ \A v \in Vals : ~(v * den >= num /\ v < u)
        dn == isf /\ ud <= num /\ \A v \in Vals : ~(v * den <= num /\ v > u)
        d == TLCEval(AbsI(ud - num))
    IN CASE m = NE ->
              IF 2 * AbsI(num) >= (2 * MaxV + UlpMax) * den THEN r = Inf(IF num < 0 THEN 1 ELSE 0)
              ELSE isf /\ \A v \in Vals : LET dv == AbsI(v * den - num)
                                          IN d <= dv /\ ((v # u /\ d = dv) => EvenSig(r))
         [] m = UP -> IF num > MaxV * den THEN r = Inf(0) ELSE up
         [] m = DN -> IF num < -MaxV * den THEN r = Inf(1) ELSE dn
         [] m = TZ -> IF num >= 0 THEN dn ELSE up

\* exactness flag, overflow flag
FlagsOK(r, num, den) ==
    LET bit(f) == (r.fl \div f) % 2 = 1
        big == AbsI(num) > MaxV * den
    IN /\ bit(FInexact) <=> ~(IsFin(r.v) /\ Val(r.v) * den = num)
       /\ bit(FOverflow) => big
       /\ IsInf(r.v) => bit(FOverflow)
       /\ bit(FUnderflow) => (bit(FInexact) /\ AbsI(num) < I2(F.emin - Sc) * den)
       /\ (bit(FInexact) /\ IsFin(r.v) /\ AbsI(Val(r.v)) < I2(F.emin - Sc)) => bit(FUnderflow)

Init == vOp \in Ops /\ vMd \in Modes /\ vA \in Codes /\ vB = -1 /\ vC = 0
Next == /\ vB = -1
        /\ vB' \in (IF vOp \in {"sqrt", "enc", "rint"} THEN {0} ELSE Codes)
        /\ vC' \in (IF vOp = "fma" THEN Codes ELSE {0})
        /\ UNCHANGED <<vOp, vMd, vA>>

fin(k) == k \in FinCodes
Scale == I2(-Sc)
Good ==
    vB = -1 \/
    LET x == Data[vA]  y == Data[vB]  z == Data[vC]
    IN CASE vOp = "enc" -> /\ (~IsNaN(x) => Encode(F, x) = BFromInt(vA))
                          /\ IsNaN(x) => IsNaN(Decode(F, Encode(F, x)))
                          /\ Norm(F, x) = x
         [] vOp = "cmp" -> (fin(vA) /\ fin(vB)) =>
                            CmpVal(x, y) = (IF ValOf[vA] < ValOf[vB] THEN -1 ELSE IF ValOf[vA] > ValOf[vB] THEN 1 ELSE 0)
         [] vOp = "add" -> (fin(vA) /\ fin(vB)) =>
                            LET r == Add(F, vMd, x, y)  n == ValOf[vA] + ValOf[vB]
                            IN DeclOK(r.v, n, 1, vMd) /\ FlagsOK(r, n, 1)
         [] vOp = "mul" -> (fin(vA) /\ fin(vB)) =>
                            LET r == Mul(F, vMd, x, y)  n == (ValOf[vA] \div I2(-F.q)) * (ValOf[vB] \div I2(-F.q))
                            IN DeclOK(r.v, n, 1, vMd) /\ FlagsOK(r, n, 1)
         [] vOp = "div" -> (fin(vA) /\ fin(vB) /\ ValOf[vB] # 0) =>
                            LET r == Div(F, vMd, x, y)
                                sg == IF ValOf[vB] < 0 THEN -1 ELSE 1
                                n == sg * (ValOf[vA] \div I2(-F.q)) * Scale   dn == AbsI(ValOf[vB]) \div I2(-F.q)
                            IN DeclOK(r.v, n, dn, vMd) /\ FlagsOK(r, n, dn)
         [] vOp = "fma" -> (fin(vA) /\ fin(vB) /\ fin(vC)) =>
                            LET r == Fma(F, vMd, x, y, z)
                                n == (ValOf[vA] \div I2(-F.q)) * (ValOf[vB] \div I2(-F.q)) + ValOf[vC]
                            IN DeclOK(r.v, n, 1, vMd) /\ FlagsOK(r, n, 1)
         [] vOp = "sqrt" -> (fin(vA) /\ x.s = 0) =>
                            \* r is right iff it is right for vA rational close enough to the root; compare squares instead
                            LET r == Sqrt(F, vMd, x).v
                                v == ValOf[vA] * (Scale)      \* (value / 2^Sc) in units of 2^(2 Sc): root in units of 2^Sc
                                sq(w) == w * w
                            IN CASE vMd = UP -> sq(Val(r)) >= v /\ \A w \in Vals : w >= 0 /\ sq(w) >= v => w >= Val(r)
                                 [] vMd = NE -> \A w \in Vals : w >= 0 =>
                                       LET u == Val(r) IN
                                       \* |u - sqrt v| <= |w - sqrt v|, w # u:  compare the midpoint
                                       IF w > u THEN sq(u + w) >= 4 * v ELSE IF w < u THEN sq(u + w) <= 4 * v ELSE TRUE
                                 [] OTHER -> sq(Val(r)) <= v /\ \A w \in Vals : w >= 0 /\ sq(w) <= v => w <= Val(r)
         [] vOp = "rint" -> fin(vA) =>
                            LET r == RoundIntegral(x, vMd, FALSE)
                                one == Scale
                                n == ValOf[vA]
                                v == IF IsZero(r) THEN 0 ELSE (IF r.s = 1 THEN -1 ELSE 1) * BToInt(r.m) * I2(r.e - Sc)
                                t == RoundIntegral(x, NE, TRUE)
                                tv == IF IsZero(t) THEN 0 ELSE (IF t.s = 1 THEN -1 ELSE 1) * BToInt(t.m) * I2(t.e - Sc)
                            IN /\ v % one = 0 /\ AbsI(v - n) < one /\ r.s = x.s
                               /\ tv % one = 0 /\ 2 * AbsI(tv - n) <= one /\ (2 * AbsI(tv - n) = one => AbsI(tv) > AbsI(n)) /\ t.s = x.s
                               /\ CASE vMd = UP -> v >= n [] vMd = DN -> v <= n [] vMd = TZ -> AbsI(v) <= AbsI(n)
                                    [] OTHER -> 2 * AbsI(v - n) <= one /\ (2 * AbsI(v - n) = one => (v \div one) % 2 = 0)
=============================================================================
