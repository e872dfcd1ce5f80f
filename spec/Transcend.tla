----------------------------- MODULE Transcend -----------------------------
(***************************************************************************)
(* Enclosures of the elementary functions in integer arithmetic.           *)
(*                                                                         *)
(* An enclosure is [v, r, sc]: the real value lies in [v-r, v+r] * 2^-sc.  *)
(* The fixed-point kernels work at P fractional bits; each truncation      *)
(* costs at most one unit and the kernels below make fewer than 2^16 of    *)
(* them (amplified by at most 2^10), so the radius Slack = 2^32 units is   *)
(* generous.  MCTranscend.tla checks each enclosure against the one        *)
(* computed with 64 more bits and against functional identities.           *)
(***************************************************************************)
EXTENDS FpOps

CONSTANTS Base0,     \* working precision of the elementary functions (176: relative accuracy ~ 2^-140)
          GamP,      \* ... of the gamma functions (256)
          GamTo      \* Stirling's series is used from here on (64)

Slack == BPow2(32)

One(P) == BPow2(P)
FxMul(x, y, P) == BShr(BMul(x, y), P)
FxDiv(x, y, P) == IF y[1] < 0 THEN BDiv(BShl(BNeg(x), P), BNeg(y)) ELSE BDiv(BShl(x, P), y)
FxSqrt(x, P)   == BIsqrt(BShl(x, P))

(*------------------------------- constants --------------------------------*)
RECURSIVE AtanInvSum(_, _, _, _, _)
AtanInvSum(t, n2, k, sg, acc) ==         \* t = 2^P / n^(2k+1)
    IF BIsZero(t) THEN acc
    ELSE LET u == BDiv(t, BFromInt(2 * k + 1))
         IN AtanInvSum(BDiv(t, n2), n2, k + 1, -sg, IF sg > 0 THEN BAdd(acc, u) ELSE BSub(acc, u))
AtanInv(n, P) == AtanInvSum(BDiv(One(P), BFromInt(n)), BFromInt(n * n), 0, 1, B0)
PiMachin(P) == LET g == P + 32
               IN BShr(BSub(BMul(BFromInt(16), AtanInv(5, g)), BMul(BFromInt(4), AtanInv(239, g))), 32)
\* the same by Chudnovsky's series with binary splitting: <<P, Q, T>> of the terms a .. b-1
C3Over24 == BMul(BMul(BFromInt(640320), BFromInt(640320)), BFromInt(26680))
RECURSIVE Chud(_, _)
Chud(a, b) ==
    IF b = a + 1
    THEN LET p == IF a = 0 THEN B1 ELSE BMul(BMul(BFromInt(6 * a - 5), BFromInt(2 * a - 1)), BFromInt(6 * a - 1))
             q == IF a = 0 THEN B1 ELSE BMul(BMul(BFromInt(a * a), BFromInt(a)), C3Over24)
             t == BMul(p, BAdd(BFromInt(13591409), BMul(BFromInt(545140134), BFromInt(a))))
         IN << p, q, IF a % 2 = 1 THEN BNeg(t) ELSE t >>
    ELSE LET m == (a + b) \div 2
             l == Chud(a, m)
             r == Chud(m, b)
         IN << BMul(l[1], r[1]), BMul(l[2], r[2]), BAdd(BMul(l[3], r[2]), BMul(l[1], r[3])) >>
PiCalc(P) == LET g == P + 32
                 c == Chud(0, g \div 47 + 2)
             IN BShr(BDiv(BMul(BMul(BFromInt(426880), BIsqrt(BShl(BFromInt(10005), 2 * g))), c[2]), c[3]), 32)

RECURSIVE AtanhInvSum(_, _, _, _)
AtanhInvSum(t, n2, k, acc) ==
    IF BIsZero(t) THEN acc
    ELSE AtanhInvSum(BDiv(t, n2), n2, k + 1, BAdd(acc, BDiv(t, BFromInt(2 * k + 1))))
AtanhInv(n, P) == AtanhInvSum(BDiv(One(P), BFromInt(n)), BFromInt(n * n), 0, B0)
\* ln 2 = 18 atanh(1/26) - 2 atanh(1/4801) + 8 atanh(1/8749);  ln 10 = 46 atanh(1/31) + 34 atanh(1/49) + 20 atanh(1/161)
Ln2Calc(P) == LET g == P + 32
              IN BShr(BAdd(BSub(BMul(BFromInt(18), AtanhInv(26, g)), BMul(BFromInt(2), AtanhInv(4801, g))),
                           BMul(BFromInt(8), AtanhInv(8749, g))), 32)
Ln10Calc(P) == LET g == P + 32
               IN BShr(BAdd(BAdd(BMul(BFromInt(46), AtanhInv(31, g)), BMul(BFromInt(34), AtanhInv(49, g))),
                            BMul(BFromInt(20), AtanhInv(161, g))), 32)

PiMaxP == 17200
PiBig  == PiCalc(PiMaxP)
PiMidP == 1600
PiMid  == BShr(PiBig, PiMaxP - PiMidP)
PiLowP == 448
PiLow  == BShr(PiBig, PiMaxP - PiLowP)
Pi(P)  == IF P <= PiLowP THEN BShr(PiLow, PiLowP - P) ELSE IF P <= PiMidP THEN BShr(PiMid, PiMidP - P)
          ELSE IF P <= PiMaxP THEN BShr(PiBig, PiMaxP - P) ELSE PiCalc(P)

LnP    == 640
Ln2Big == Ln2Calc(LnP)
Ln2(P) == IF P <= LnP THEN BShr(Ln2Big, LnP - P) ELSE Ln2Calc(P)
Ln10Big == Ln10Calc(LnP)
Ln10(P) == IF P <= LnP THEN BShr(Ln10Big, LnP - P) ELSE Ln10Calc(P)

(*--------------------------------- kernels --------------------------------*)
\* e^r - 1 for |r| <= 1/2 (fixed point): Taylor on r
RECURSIVE ExpTay(_, _, _, _, _)
ExpTay(t, r, k, acc, P) ==
    IF BLen(t) <= 1 THEN acc
    ELSE LET u == BDiv(BShr(BMul(t, r), P), BFromInt(k)) IN ExpTay(u, r, k + 1, BAdd(acc, u), P)
FxExpm1(r, P) == BAdd(r, ExpTay(r, r, 2, B0, P))
\* e^r for |r| <= 1: argument divided by 2^8, result squared eight times
RECURSIVE Squares(_, _, _)
Squares(x, n, P) == IF n = 0 THEN x ELSE Squares(FxMul(x, x, P), n - 1, P)
FxExp(r, P) == LET g == P + 16
               IN BShr(Squares(BAdd(One(g), FxExpm1(BShl(r, 8), g)), 8, g), 16)      \* r*2^16/2^8

\* ln x for x in [1/2, 2]
RECURSIVE Roots(_, _, _)
Roots(x, n, P) == IF n = 0 THEN x ELSE Roots(FxSqrt(x, P), n - 1, P)
RECURSIVE AtanhTay(_, _, _, _, _)
AtanhTay(t, z2, k, acc, P) ==            \* t = z^(2k+1)
    IF BLen(t) <= 1 THEN acc
    ELSE AtanhTay(FxMul(t, z2, P), z2, k + 1, BAdd(acc, BDiv(t, BFromInt(2 * k + 1))), P)
FxLn(x, P) == LET g == P + 16
                  y == Roots(BShl(x, 16), 6, g)
                  z == FxDiv(BSub(y, One(g)), BAdd(y, One(g)), g)
              IN BShr(AtanhTay(z, FxMul(z, z, g), 0, B0, g), 9)                      \* 2 * 2^6 / 2^16

\* sin and cos of r, |r| <= 1
RECURSIVE SinTay(_, _, _, _, _)
SinTay(t, r2, k, acc, P) ==
    IF BLen(t) <= 1 THEN acc
    ELSE LET u == BNeg(BDiv(FxMul(t, r2, P), BFromInt((k + 1) * (k + 2)))) IN SinTay(u, r2, k + 2, BAdd(acc, u), P)
FxSin(r, P) == LET r2 == FxMul(r, r, P) IN BAdd(r, SinTay(r, r2, 1, B0, P))
FxCos(r, P) == LET r2 == FxMul(r, r, P) IN BAdd(One(P), SinTay(One(P), r2, 0, B0, P))

\* atan t, 0 <= t <= 1
RECURSIVE AtanTay(_, _, _, _, _)
AtanTay(t, z2, k, acc, P) ==
    IF BLen(t) <= 1 THEN acc
    ELSE LET u == BDiv(t, BFromInt(2 * k + 1))
         IN AtanTay(FxMul(t, z2, P), z2, k + 1, IF k % 2 = 0 THEN BAdd(acc, u) ELSE BSub(acc, u), P)
RECURSIVE AtanHalve(_, _, _)
AtanHalve(t, n, P) ==
    IF n = 0 THEN t
    ELSE AtanHalve(FxDiv(t, BAdd(One(P), FxSqrt(BAdd(One(P), FxMul(t, t, P)), P)), P), n - 1, P)
FxAtan(t, P) == LET g == P + 16
                    z == AtanHalve(BShl(t, 16), 4, g)
                IN BShr(AtanTay(z, FxMul(z, z, g), 0, B0, g), 12)                    \* 2^4 / 2^16

(*------------------------------- enclosures -------------------------------*)
Enc(v, sc) == [v |-> v, r |-> Slack, sc |-> sc]
\* a finite datum in fixed point at P bits, truncated toward -inf
Fx(x, P) == IF IsZero(x) THEN B0 ELSE IF x.e + P >= 0 THEN BShl(SM(x), x.e + P) ELSE BShr(SM(x), -(x.e + P))
ExpoOf(x) == IF IsZero(x) THEN 0 ELSE ExpOf(x)
PFor(x) == Base0 + Max2(0, -ExpoOf(x))

\* e^(X * 2^-P), |X*2^-P| < 2^20
EncExpFx(X, P) ==
    LET l2 == Ln2(P + 32)
        k  == BDiv(BShl(X, 32), l2)
        r  == BShr(BSub(BShl(X, 32), BMul(k, l2)), 32)
    IN Enc(FxExp(r, P), P - BToInt(k))
Huge(x) == ExpoOf(x) > 17              \* e^x is far outside every format
EncHuge(x) == Enc(BPow2(40), IF x.s = 1 THEN 2000000 ELSE -2000000)
EncExp(x)  == IF Huge(x) THEN EncHuge(x) ELSE EncExpFx(Fx(x, Base0), Base0)
EncExp2(x) == IF Huge(x) THEN EncHuge(x)
              ELSE LET X == Fx(x, Base0)                      \* 2^x = 2^floor(x) e^(frac * ln2)
                       k == BShr(X, Base0)
                       f == BSub(X, BShl(k, Base0))
                   IN Enc(FxExp(FxMul(f, Ln2(Base0), Base0), Base0), Base0 - BToInt(k))
EncExpm1(x) ==
    IF ExpoOf(x) < -1 THEN LET P == PFor(x) IN Enc(FxExpm1(Fx(x, P), P), P)
    ELSE LET e == EncExp(x)
         IN IF e.sc < 0 THEN [e EXCEPT !.r = BAdd(e.r, B2)]
            ELSE IF e.sc <= Base0 THEN [e EXCEPT !.v = BSub(e.v, BPow2(e.sc))]
            ELSE Enc(BSub(BShr(e.v, e.sc - Base0), One(Base0)), Base0)

\* ln of a positive finite datum at P bits (absolute accuracy): <<value, P>>
LnAt(x, P) ==
    LET L == BLen(x.m)
        mm == IF L - 1 <= P THEN BShl(x.m, P - (L - 1)) ELSE BShr(x.m, L - 1 - P)      \* in [1, 2)
        k0 == x.e + L - 1
        big == BCmp(mm, BShl(BFromInt(11), P - 3)) > 0                                   \* > 1.375: use x/2
        k == IF big THEN k0 + 1 ELSE k0
        g == P + 24
        fr == IF big THEN BShl(mm, 23) ELSE BShl(mm, 24)
    IN BShr(BAdd(FxLn(fr, g), BMul(BFromInt(k), Ln2(g))), 24)
LnP0(x) == Base0 + 64
EncLn(x)    == Enc(LnAt(x, LnP0(x)), LnP0(x))
EncLog2(x)  == LET P == LnP0(x) IN Enc(FxDiv(LnAt(x, P), Ln2(P), P), P)
EncLog10(x) == LET P == LnP0(x) IN Enc(FxDiv(LnAt(x, P), Ln10(P), P), P)
EncLog1p(x) ==                                     \* x > -1
    IF ExpoOf(x) < -6
    THEN LET P == PFor(x)                          \* 2 atanh(x / (2 + x))
             X == Fx(x, P)
             z == FxDiv(X, BAdd(X, BShl(One(P), 1)), P)
         IN Enc(BShl(AtanhTay(z, FxMul(z, z, P), 0, B0, P), 1), P)
    ELSE LET t == SumExact([c |-> "fin", s |-> 0, m |-> B1, e |-> 0], x)
         IN EncLn([c |-> "fin", s |-> 0, m |-> t[1], e |-> t[2]])

\* x mod pi/2:  [k mod 4, r] with r in [-pi/4, pi/4] at P bits (x finite)
ReduceP2(x, P) ==
    LET ex == Max2(0, ExpoOf(x)) + 8
        g  == P + ex
        h  == BShr(Pi(g), 1)                       \* pi/2 at g bits
        X  == Fx(x, g)
        k  == BDiv(BAdd(X, BShr(h, 1)), h)
        r  == BSub(X, BMul(k, h))
    IN [k |-> BToInt(BMod(k, BFromInt(4))), r |-> BShr(r, ex)]
SinCos(x, P) ==
    LET d == ReduceP2(x, P)
        s == FxSin(d.r, P)
        c == FxCos(d.r, P)
    IN CASE d.k = 0 -> <<s, c>> [] d.k = 1 -> <<c, BNeg(s)>> [] d.k = 2 -> <<BNeg(s), BNeg(c)>> [] OTHER -> <<BNeg(c), s>>
TrigP(x) == PFor(x) + 96
EncSin(x) == LET P == TrigP(x) IN Enc(SinCos(x, P)[1], P)
EncCos(x) == Enc(SinCos(x, Base0 + 96)[2], Base0 + 96)
\* |x| below 2^-40: cos x = 1 - x^2/2 + ..., found with the same kernel
EncTan(x) == LET P == TrigP(x)
                 sc == SinCos(x, P)
             IN [v |-> FxDiv(sc[1], sc[2], P),
                 r |-> BShl(Slack, 2 * Max2(0, P - BLen(sc[2]) + 2)), sc |-> P]

\* atan of the positive rational num/den at P bits
AtanQ(num, den, P) ==
    IF BLe(num, den) THEN FxAtan(BDiv(BShl(num, P), den), P)
    ELSE BSub(BShr(Pi(P), 1), FxAtan(BDiv(BShl(den, P), num), P))
\* quotient of magnitudes of two finite data as <<num, den>>
Ratio(y, x) == LET e == y.e - x.e IN IF e >= 0 THEN << BShl(y.m, e), x.m >> ELSE << y.m, BShl(x.m, -e) >>
EncSigned(s, v, P) == Enc(IF s = 1 THEN BNeg(v) ELSE v, P)
EncAtan(x) == LET P == PFor(x)
                  q == Ratio(x, [c |-> "fin", s |-> 0, m |-> B1, e |-> 0])
              IN EncSigned(x.s, AtanQ(q[1], q[2], P), P)
EncAtan2(y, x) ==                                   \* both finite and non-zero
    LET ex == (ExpOf(x) - ExpOf(y)) + 2
        P == IF x.s = 0 THEN Base0 + Max2(0, ex) ELSE Base0
        tiny == x.s = 1 /\ ex > Base0 + 40
    IN IF tiny THEN EncSigned(y.s, Pi(P), P)
       ELSE LET q == Ratio(y, x)
                a == AtanQ(q[1], q[2], P)
            IN EncSigned(y.s, IF x.s = 1 THEN BSub(Pi(P), a) ELSE a, P)
\* sqrt((1-|x|)(1+|x|)) at P bits, |x| < 1
CoSin(x, P) == LET g == 2 * P
                   X == IF x.e + P >= 0 THEN BShl(x.m, x.e + P) ELSE BShr(x.m, -(x.e + P))
                   \* exact 1 - x^2 with enough bits
                   n == IF x.e + P >= 0 THEN BSub(BPow2(g), BMul(X, X)) ELSE BSub(BPow2(g), BShr(BMul(x.m, x.m), -(2 * x.e + g)))
               IN BIsqrt(n)
EncAsin(x) ==                                       \* |x| < 1
    LET P == PFor(x)
        X == BAbs(Fx(x, P))
        c == CoSin(x, P)
    IN EncSigned(x.s, AtanQ(X, c, P), P)
EncAcos(x) ==
    LET P == Base0 + 40
        X == BAbs(Fx(x, P))
        c == CoSin(x, P)
        a == AtanQ(c, BMax(X, B1), P)               \* acos |x|
    IN Enc(IF x.s = 1 THEN BSub(Pi(P), a) ELSE a, P)

\* x^y for finite x > 0 (magnitude), y finite
EncPow(x, y) ==
    LET P == Base0 + 40 + Max2(0, ExpOf(y)) + 8
        lx == LnAt(x, P)
        X == IF y.e >= 0 THEN BShl(BMul(lx, SM(y)), y.e) ELSE BShr(BMul(lx, SM(y)), -y.e)
        W == BShr(X, P - Base0)
    IN IF BLen(W) > Base0 + 20 THEN (IF W[1] > 0 THEN Enc(BPow2(40), -2000000) ELSE Enc(BPow2(40), 2000000))
       ELSE EncExpFx(W, Base0)
EncCbrt(x) ==
    LET P == Base0 + 40
        r == ((x.e % 3) + 3) % 3
        mm == [x EXCEPT !.s = 0, !.e = r]           \* x = mm * 2^(3k)
        l == BDiv(LnAt(mm, P), BFromInt(3))
        e == EncExpFx(BShr(l, P - Base0), Base0)
    IN [v |-> IF x.s = 1 THEN BNeg(e.v) ELSE e.v, r |-> e.r, sc |-> e.sc - (x.e - r) \div 3]
\* sqrt of a sum of squares of finite data (magnitudes), not all zero
EncHypot(x, y, z) ==
    LET em == Min2(x.e, Min2(y.e, z.e))
        top == Max2(IF IsZero(x) THEN -40000 ELSE ExpOf(x), Max2(IF IsZero(y) THEN -40000 ELSE ExpOf(y), IF IsZero(z) THEN -40000 ELSE ExpOf(z)))
        P == Base0 - top                            \* scale: the largest has Base0 bits
        sq(u) == IF IsZero(u) THEN B0
                 ELSE LET k == 2 * u.e + 2 * P IN IF k >= 0 THEN BShl(BMul(u.m, u.m), k) ELSE BShr(BMul(u.m, u.m), -k)
    IN Enc(BIsqrt(BAdd(sq(x), BAdd(sq(y), sq(z)))), P)

(*------------------------------ gamma function ----------------------------*)
\* B_2k / (2k (2k-1)), k = 1..20
Stirling == <<
    << <<1,1>>, <<1,12>> >>,
    << <<-1,1>>, <<1,360>> >>,
    << <<1,1>>, <<1,1260>> >>,
    << <<-1,1>>, <<1,1680>> >>,
    << <<1,1>>, <<1,1188>> >>,
    << <<-1,691>>, <<1,32680,10>> >>,
    << <<1,1>>, <<1,156>> >>,
    << <<-1,3617>>, <<1,24096,3>> >>,
    << <<1,11099,1>>, <<1,14812,7>> >>,
    << <<-1,10771,5>>, <<1,27096,3>> >>,
    << <<1,12147,2>>, <<1,5796>> >>,
    << <<-1,8507,7213>>, <<1,32400,45>> >>,
    << <<1,2571,20>>, <<1,300>> >>,
    << <<-1,14195,5235,3>>, <<1,28424,2>> >>,
    << <<1,27873,27049,1604>>, <<1,1660,76>> >>,
    << <<-1,5441,28335,7179>>, <<1,14400,15>> >>,
    << <<1,20431,7052,141>>, <<1,396>> >>,
    << <<-1,18941,16227,54,27029,22>>, <<1,32072,8260,2>> >>,
    << <<1,749,14617,12547,4>>, <<1,444>> >>,
    << <<-1,20227,23632,5321,14849,226>>, <<1,4208,644>> >>
>>
HalfLn2Pi(P) == BShr(LnAt([c |-> "fin", s |-> 0, m |-> Pi(P + 32), e |-> -(P + 32) + 1], P), 1)
HL2P == HalfLn2Pi(GamP)

\* lnGamma(X) for fixed-point X >= 64 (any size below 2^70), at GamP bits
RECURSIVE StSum(_, _, _, _)
StSum(k, t, i2, acc) ==                              \* t = X^-(2k-1)
    IF k > 20 \/ BLen(t) <= 1 THEN acc
    ELSE StSum(k + 1, FxMul(t, i2, GamP), i2,
               BAdd(acc, BDiv(BMul(t, Stirling[k][1]), Stirling[k][2])))
LnGammaBig(X) ==
    LET i  == FxDiv(One(GamP), X, GamP)
        lx == LnAt([c |-> "fin", s |-> 0, m |-> X, e |-> -GamP], GamP + 80)
        a  == BShr(BMul(BSub(X, BPow2(GamP - 1)), lx), GamP + 80)
    IN BAdd(BAdd(BSub(a, X), HL2P), StSum(1, i, FxMul(i, i, GamP), B0))
RECURSIVE RiseProd(_, _, _)
RiseProd(X, n, acc) == IF n = 0 THEN acc ELSE RiseProd(BAdd(X, One(GamP)), n - 1, FxMul(acc, X, GamP))
GShift(X) == LET k == GamTo - BToInt(BShr(X, GamP)) IN IF BLen(X) > GamP + 10 THEN 0 ELSE Max2(0, k)
\* X > 0 in fixed point at GamP: Gamma as an enclosure, lnGamma at GamP bits
GammaPos(X) ==
    LET n == GShift(X)
        pr == RiseProd(X, n, One(GamP))
        e == EncExpFx(LnGammaBig(BAdd(X, BShl(BFromInt(n), GamP))), GamP)
        k == BLen(pr) - GamP
        v == BDiv(BShl(e.v, Max2(0, GamP + k)), pr)
    IN [v |-> v, r |-> BAdd(Slack, BShr(v, 150)), sc |-> e.sc + k]
LnGammaPos(X) ==
    LET n == GShift(X)
        pr == RiseProd(X, n, One(GamP))
        lg == LnGammaBig(BAdd(X, BShl(BFromInt(n), GamP)))
    IN IF n = 0 THEN lg ELSE BSub(lg, LnAt([c |-> "fin", s |-> 0, m |-> pr, e |-> -GamP], GamP))
\* |sin(pi x)| at GamP bits for a finite non-integer x, and its sign
SinPi(X) ==                                          \* X fixed point (exact)
    LET k == BShr(X, GamP)
        f == BSub(X, BShl(k, GamP))                  \* in (0, 1)
        g == IF BLen(f) = GamP THEN BSub(One(GamP), f) ELSE f
        a == FxMul(g, Pi(GamP), GamP)
        v == IF BLen(a) < GamP - 0 THEN FxSin(a, GamP) ELSE FxCos(BSub(BShr(Pi(GamP), 1), a), GamP)
    IN [v |-> v, odd |-> BIsOdd(k)]
\* x: finite, not a pole
EncGamma(x) ==
    IF ExpoOf(x) < -60                                \* 1/x - 0.577... + O(x)
    THEN LET v == BDiv(BPow2(GamP + BLen(x.m)), x.m)
         IN [v |-> IF x.s = 1 THEN BNeg(v) ELSE v, r |-> BAdd(B1, BShr(v, -ExpoOf(x) - 1)), sc |-> GamP + BLen(x.m) + x.e]
    ELSE IF ExpoOf(x) > 17 /\ x.s = 0 THEN EncHuge(x)
    ELSE IF ExpoOf(x) > 17
    THEN [EncHuge(x) EXCEPT !.v = IF BIsOdd(BShr(SM(x), Max2(0, -x.e))) THEN BNeg(BPow2(40)) ELSE BPow2(40)]
    ELSE LET X == Fx(x, GamP)
         IN IF x.s = 0 THEN GammaPos(X)
            ELSE LET sp == SinPi(X)
                     g  == GammaPos(BSub(One(GamP), X))
                     den == FxMul(sp.v, g.v, GamP)
                     v == FxDiv(Pi(GamP), den, GamP)
                 IN [v |-> IF sp.odd THEN BNeg(v) ELSE v,
                     r |-> BAdd(Slack, BShr(v, 120)), sc |-> GamP - g.sc + GamP]
EncLGamma(x) ==
    IF ExpoOf(x) < -60 THEN [v |-> BNeg(LnAt([x EXCEPT !.s = 0], GamP)), r |-> BPow2(GamP + ExpoOf(x) + 2 + Max2(0, -GamP - ExpoOf(x))), sc |-> GamP]
    ELSE LET X == Fx(x, GamP)
         IN IF x.s = 0 THEN LET v == LnGammaPos(X) IN [v |-> v, r |-> BAdd(Slack, BShr(BAbs(v), 180)), sc |-> GamP]
            ELSE LET sp == SinPi(X)
                     l(v) == LnAt([c |-> "fin", s |-> 0, m |-> v, e |-> -GamP], GamP)
                 IN [v |-> BSub(BSub(l(Pi(GamP)), l(sp.v)), LnGammaPos(BSub(One(GamP), X))),
                     r |-> BPow2(GamP - 120), sc |-> GamP]

(*------------------------- acceptance within n ulps -----------------------*)
\* Is the datum y of F within n16/16 units in the last place of the enclosed value, as results of
\* format F in rounding mode md are counted?
\* ulp: the spacing at the magnitude of the value, not below the subnormal spacing.
WithinUlps(F, md, en, y, n16) ==
    LET neg == en.v[1] < 0
        s == B01(neg)
        t == BAbs(en.v)
        E == BLen(t) - 1 - en.sc
        Ey == IF IsNum(y) /\ y.e + BLen(y.m) - 1 = E + 1 THEN E + 1 ELSE E          \* across a binade the wider spacing counts
        u == Min2(Max2(Ey - F.p + 1, F.q), F.qmax)
        dirz == md = TZ \/ (md = DN /\ s = 0) \/ (md = UP /\ s = 1)
        \* dist(y, value) <= radius + n16 * 2^(u-4), everything times 2^S
        Near(mm, ee) ==
            LET S == Max2(en.sc, Max2(4 - u, -ee))
                a == BShl(t, S - en.sc)
                b == BShl(mm, ee + S)
                tol == BAdd(BShl(en.r, S - en.sc), BShl(BFromInt(n16), u - 4 + S))
            IN BLe(BAbs(BSub(a, b)), tol)
    IN IF IsNaN(y) THEN FALSE
       ELSE IF E > F.emax + 1      THEN (IsInf(y) /\ y.s = s) \/ (dirz /\ y.c = "fin" /\ y.s = s /\ y.e = F.qmax /\ BLen(BAdd(y.m, BFromInt((n16 + 15) \div 16))) > F.p)
       ELSE IF E < F.q - 2 - F.p   THEN (IsZero(y) /\ y.s = s) \/ (IsNum(y) /\ y.s = s /\ 16 * BToInt(BMod(y.m, BPow2(20))) <= Max2(n16, 16) /\ BLen(y.m) < 20)
       ELSE IF IsInf(y) THEN y.s = s /\ (E > F.emax \/ Near(BPow2(F.p), F.qmax))
       ELSE IF IsZero(y) THEN y.s = s /\ Near(B0, F.q)
       ELSE (y.s = s /\ Near(y.m, y.e))
            \/ (E >= F.emax + 1 /\ dirz /\ y.s = s /\ y.e = F.qmax
                /\ BLen(BAdd(y.m, BFromInt((n16 + 15) \div 16))) > F.p)
=============================================================================
