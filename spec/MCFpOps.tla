------------------------------ MODULE MCFpOps ------------------------------
(***************************************************************************)
(* The exactly specified functions of FpOps.tla against declarative        *)
(* statements of what they are, for every operand of a toy format: each    *)
(* law quantifies over all representable values, none repeats a            *)
(* definition of FpOps.                                                    *)
(***************************************************************************)
EXTENDS FpOps, FiniteSets, TLC
CONSTANTS P, W, IB, Ops
F == MkFormat(P, W, IB)

VARIABLES vOp, vMd, vA, vB
vars == <<vOp, vMd, vA, vB>>

Codes == TLCEval({ k \in 0 .. IPow2(F.n) - 1 : Canonical(F, BFromInt(k)) })
Data  == TLCEval([ k \in Codes |-> Decode(F, BFromInt(k)) ])
RECURSIVE I2(_)
I2(n) == IF n = 0 THEN 1 ELSE 2 * I2(n - 1)
AbsI(n) == IF n < 0 THEN -n ELSE n
\* a finite datum as an integer multiple of 2^Sc
Sc == F.q
One == I2(-Sc)
V(d) == IF d.c = "zero" THEN 0 ELSE (IF d.s = 1 THEN -1 ELSE 1) * (IF d.e >= Sc THEN BToInt(d.m) * I2(d.e - Sc) ELSE BToInt(BShr(d.m, Sc - d.e)))
FinCodes == TLCEval({ k \in Codes : IsFin(Data[k]) })
ValOf == TLCEval([ k \in FinCodes |-> V(Data[k]) ])
Vals == TLCEval({ ValOf[k] : k \in FinCodes })
MaxV == V(MaxFin(F, 0))
UlpMax == I2(F.qmax - Sc)

\* fields of the raw code, without Decode
RExp(k) == (k \div I2(F.sb)) % I2(F.w)
RSig(k) == k % I2(F.sb)
RFrac(k) == k % I2(F.p - 1)
RSgn(k) == k \div I2(F.n - 1)

\* r is num/den (den > 0) correctly rounded in mode m, stated over all values
DeclOK(r, num, den, m) ==
    LET isf == IsFin(r)
        u == IF isf THEN V(r) ELSE 0
        up == isf /\ u * den >= num /\ \A v \in Vals : v * den >= num => u <= v
        dn == isf /\ u * den <= num /\ \A v \in Vals : v * den <= num => v <= u
    IN CASE m = NE -> IF 2 * AbsI(num) >= (2 * MaxV + UlpMax) * den THEN r = Inf(IF num < 0 THEN 1 ELSE 0)
                      ELSE isf /\ \A v \in Vals : LET dv == AbsI(v * den - num)  d == AbsI(u * den - num)
                                                  IN d <= dv /\ ((v # u /\ d = dv) => (r.c = "zero" \/ ~BIsOdd(r.m)))
         [] m = UP -> IF num > MaxV * den THEN r = Inf(0) ELSE up
         [] m = DN -> IF num < -MaxV * den THEN r = Inf(1) ELSE dn
         [] m = TZ -> IF num >= 0 THEN dn ELSE up

Binary == {"cmp", "minmax", "fdim", "fmod", "remainder", "remquo", "nextafter"}
Init == vOp \in Ops /\ vMd \in Modes /\ vA \in Codes /\ vB = -1000
Next == /\ vB = -1000
        /\ vB' \in (IF vOp = "scale" THEN -9 .. 9 ELSE IF vOp \in Binary THEN Codes ELSE {0})
        /\ UNCHANGED <<vOp, vMd, vA>>

fin(k) == k \in FinCodes
SgnI(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0

PredLaw(k) ==
    LET x == Data[k]
        nan == RExp(k) = F.eall /\ RFrac(k) # 0
        inf == RExp(k) = F.eall /\ RFrac(k) = 0
        zer == RExp(k) = 0 /\ RSig(k) = 0
        sub == RExp(k) = 0 /\ RSig(k) # 0
        cl == Pred1("fpclassify", F, x)
    IN /\ Pred1("isnan", F, x) = B01(nan) /\ Pred1("isinf", F, x) = B01(inf)
       /\ Pred1("isfinite", F, x) = B01(RExp(k) # F.eall)
       /\ Pred1("isnormal", F, x) = B01(RExp(k) # F.eall /\ RExp(k) # 0)
       /\ Pred1("signbit", F, x) = RSgn(k)
       /\ cl = (IF nan THEN 0 ELSE IF inf THEN 1 ELSE IF zer THEN 2 ELSE IF sub THEN 3 ELSE 4)

\* a total preorder on the codes that are not NaNs, from the raw fields: monotone in (exponent, significand)
Key(k) == LET n == k % I2(F.n - 1) IN IF RSgn(k) = 1 THEN -n ELSE n
CmpLaw(k, j) ==
    LET x == Data[k]  y == Data[j]
        un == IsNaN(x) \/ IsNaN(y)
        p(f) == Pred2(f, x, y)
    IN IF un THEN p("isunordered") = 1 /\ \A f \in {"isgreater", "isless", "isgreaterequal", "islessequal", "islessgreater"} : p(f) = 0
       ELSE /\ p("isunordered") = 0
            /\ p("isless") = B01(Key(k) < Key(j)) /\ p("isgreater") = B01(Key(k) > Key(j))
            /\ p("islessequal") = B01(Key(k) <= Key(j)) /\ p("isgreaterequal") = B01(Key(k) >= Key(j))
            /\ p("islessgreater") = B01(Key(k) # Key(j))

MinMaxLaw(k, j) ==
    LET x == Data[k]  y == Data[j]  lo == FMinMax("fmin", x, y)  hi == FMinMax("fmax", x, y)
    IN /\ lo # {} /\ hi # {} /\ lo \subseteq {x, y} /\ hi \subseteq {x, y}
       /\ (IsNaN(x) /\ ~IsNaN(y)) => lo = {y} /\ hi = {y}
       /\ (IsNaN(y) /\ ~IsNaN(x)) => lo = {x} /\ hi = {x}
       /\ (fin(k) /\ fin(j)) => /\ \A z \in lo : V(z) <= ValOf[k] /\ V(z) <= ValOf[j]
                                /\ \A z \in hi : V(z) >= ValOf[k] /\ V(z) >= ValOf[j]
       /\ (~IsNaN(x) /\ ~IsNaN(y)) => lo = FMinMax("fmin", y, x)

FmodLaw(k, j) ==
    LET r == FMod(F, Data[k], Data[j]).v  v == V(r)
    IN ~(fin(k) /\ fin(j) /\ ValOf[j] # 0) \/
       (/\ IsFin(r) /\ r.s = Data[k].s
        /\ AbsI(v) < AbsI(ValOf[j]) /\ (ValOf[k] - v) % AbsI(ValOf[j]) = 0
        /\ v # 0 => SgnI(v) = SgnI(ValOf[k])
        /\ v \in Vals)
RemLaw(k, j) ==
    LET t == RemQuo(F, Data[k], Data[j])  r == t.v  v == V(r)
        d == AbsI(ValOf[j])  n == (ValOf[k] - v) \div d
        sg == IF ValOf[j] < 0 THEN -1 ELSE 1
    IN ~(fin(k) /\ fin(j) /\ ValOf[j] # 0) \/
       (/\ IsFin(r) /\ (ValOf[k] - v) % d = 0 /\ 2 * AbsI(v) <= d
        /\ (2 * AbsI(v) = d => n % 2 = 0)
        /\ (v = 0 => r.s = Data[k].s)
        /\ v \in Vals
        /\ t.qv /\ t.q = SgnI(n * sg) * (AbsI(n) % 8))

FrexpLaw(k) ==
    LET x == Data[k]  r == FrExp(F, x)
    IN ~fin(k) \/
       IF ValOf[k] = 0 THEN r.v = x /\ r.q = 0
       ELSE /\ ExpOf(r.v) = -1 /\ r.v.s = x.s /\ Representable(F, r.v.m, r.v.e)
            /\ CmpMag(r.v.m, r.v.e + r.q, x.m, x.e) = 0
ScaleLaw(md, k, n) ==
    LET r == Scale2(F, md, Data[k], n).v
    IN ~fin(k) \/ (IF n >= 0 THEN DeclOK(r, ValOf[k] * I2(n), 1, md) ELSE DeclOK(r, ValOf[k], I2(-n), md))
LogbLaw(k) ==
    LET x == Data[k]  i == ILogB(x)  l == LogB(F, x).v
    IN ~fin(k) \/ ValOf[k] = 0 \/
       (/\ IF i + F.p - 1 >= Sc + F.p - 1 THEN I2(i - Sc) <= AbsI(ValOf[k]) /\ AbsI(ValOf[k]) < 2 * I2(i - Sc) ELSE FALSE
        /\ (Representable(F, BFromInt(AbsI(i)), 0) => V(l) = i * One))
ModfLaw(k) ==
    LET x == Data[k]  r == ModF(F, x)
    IN ~fin(k) \/ (/\ V(r.v) + V(r.w) = ValOf[k] /\ V(r.w) % One = 0 /\ AbsI(V(r.v)) < One
                   /\ r.v.s = x.s /\ r.w.s = x.s /\ SgnI(V(r.v)) * SgnI(ValOf[k]) >= 0)

NextLaw(k) ==
    LET x == Data[k]  u == NextUp(F, x)  d == NextDown(F, x)
    IN IF IsNaN(x) THEN IsNaN(u) /\ IsNaN(d)
       ELSE /\ fin(k) => IF ValOf[k] = MaxV THEN u = Inf(0)
                         ELSE IsFin(u) /\ V(u) > ValOf[k] /\ \A v \in Vals : v > ValOf[k] => v >= V(u)
            /\ fin(k) => IF ValOf[k] = -MaxV THEN d = Inf(1)
                         ELSE IsFin(d) /\ V(d) < ValOf[k] /\ \A v \in Vals : v < ValOf[k] => v <= V(d)
            /\ (fin(k) /\ ValOf[k] # 0) => V(NextDown(F, u)) = ValOf[k] \/ IsInf(u)
            /\ x = Inf(0) => (u = x /\ d = MaxFin(F, 0))
            /\ x = Inf(1) => (d = x /\ u = MaxFin(F, 1))
            /\ (fin(k) /\ IsZero(u)) => u.s = 1
            /\ (fin(k) /\ IsZero(d)) => d.s = 0
NextAfterLaw(k, j) ==
    LET x == Data[k]  y == Data[j]  r == NextAfter(F, x, y)
    IN IF IsNaN(x) \/ IsNaN(y) THEN IsNaN(r.v)
       ELSE IF Key(k) = Key(j) THEN r.v = y
       ELSE r.v = (IF Key(k) < Key(j) THEN NextUp(F, x) ELSE NextDown(F, x))

NearLaw(md, k) ==
    LET x == Data[k]  n == ValOf[k]
        v(f) == V(Nearest(f, F, md, x))
    IN ~fin(k) \/
       (/\ \A f \in {"ceil", "floor", "trunc", "round", "rint", "nearbyint"} :
              /\ v(f) % One = 0 /\ AbsI(v(f) - n) < One /\ Nearest(f, F, md, x).s = x.s
        /\ v("ceil") >= n /\ v("floor") <= n /\ AbsI(v("trunc")) <= AbsI(n) /\ v("trunc") * n >= 0
        /\ 2 * AbsI(v("round") - n) <= One /\ (2 * AbsI(v("round") - n) = One => AbsI(v("round")) > AbsI(n))
        /\ v("rint") = v("nearbyint")
        /\ CASE md = UP -> v("rint") = v("ceil") [] md = DN -> v("rint") = v("floor") [] md = TZ -> v("rint") = v("trunc")
             [] OTHER -> 2 * AbsI(v("rint") - n) <= One /\ (2 * AbsI(v("rint") - n) = One => (v("rint") \div One) % 2 = 0))

FdimLaw(md, k, j) ==
    LET r == FDim(F, md, Data[k], Data[j]).v
    IN ~(fin(k) /\ fin(j)) \/ (IF ValOf[k] > ValOf[j] THEN DeclOK(r, ValOf[k] - ValOf[j], 1, md) ELSE r = Zero(0))

Good == vB = -1000 \/
    CASE vOp = "pred" -> PredLaw(vA)
      [] vOp = "cmp" -> CmpLaw(vA, vB)
      [] vOp = "minmax" -> MinMaxLaw(vA, vB)
      [] vOp = "fdim" -> FdimLaw(vMd, vA, vB)
      [] vOp = "fmod" -> FmodLaw(vA, vB)
      [] vOp \in {"remainder", "remquo"} -> RemLaw(vA, vB)
      [] vOp = "frexp" -> FrexpLaw(vA)
      [] vOp = "scale" -> ScaleLaw(vMd, vA, vB)
      [] vOp = "logb" -> LogbLaw(vA)
      [] vOp = "modf" -> ModfLaw(vA)
      [] vOp = "next" -> NextLaw(vA)
      [] vOp = "nextafter" -> NextAfterLaw(vA, vB)
      [] vOp = "near" -> NearLaw(vMd, vA)
=============================================================================
