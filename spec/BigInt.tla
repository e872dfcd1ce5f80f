------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Integers of any size.  TLC's own integers have 32 bits; the words of a  *)
(* floating-point format, and the exact values of sums and products of     *)
(* them, do not fit.                                                       *)
(*                                                                         *)
(* A number is the tuple <<sgn, l0, l1, ...>>: its sign (-1, 0, 1), then   *)
(* its magnitude in base 2^15, least limb first, no leading zero limb.     *)
(* Zero is <<0>>.  So two numbers are equal iff their tuples are.          *)
(*                                                                         *)
(* The definitions here are pure TLA+.  When the class vtlc.Overrides is   *)
(* on TLC's classpath, TLC evaluates the operators marked (J) with         *)
(* java.math.BigInteger instead; MCBigInt.tla evaluates both and compares. *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Base == 32768
LOCAL Wd   == 15

(*----------------------------- magnitudes --------------------------------*)
LOCAL Lmb(q, i) == IF i >= 1 /\ i <= Len(q) THEN q[i] ELSE 0

RECURSIVE Trim(_)
Trim(q) == IF Len(q) > 0 /\ q[Len(q)] = 0 THEN Trim(SubSeq(q, 1, Len(q) - 1)) ELSE q

RECURSIVE MagCmpAt(_, _, _)
MagCmpAt(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE MagCmpAt(a, b, i - 1)
MagCmp(a, b) ==
    IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE MagCmpAt(a, b, Len(a))

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == Lmb(a, i) + Lmb(b, i) + c
         IN <<s % Base>> \o AddFrom(a, b, i + 1, s \div Base)
MagAdd(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET d == a[i] - Lmb(b, i) - c
         IN IF d < 0 THEN <<d + Base>> \o SubFrom(a, b, i + 1, 1)
                     ELSE <<d>> \o SubFrom(a, b, i + 1, 0)
MagSub(a, b) == Trim(SubFrom(a, b, 1, 0))       \* a >= b

RECURSIVE MulLimb(_, _, _, _)
MulLimb(a, x, i, c) ==
    IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == a[i] * x + c IN <<s % Base>> \o MulLimb(a, x, i + 1, s \div Base)

RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, i) ==
    IF i > Len(b) THEN <<>>
    ELSE MagAdd(MulLimb(a, b[i], 1, 0), LET r == MulFrom(a, b, i + 1)
                                        IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)
MagMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Trim(MulFrom(a, b, 1))

RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)

MagShl(a, n) ==
    IF a = <<>> THEN <<>>
    ELSE [i \in 1 .. (n \div Wd) |-> 0] \o MulLimb(a, P2(n % Wd), 1, 0)

MagShr(a, n) ==
    LET k == n \div Wd
        r == n % Wd
        q == IF k >= Len(a) THEN <<>> ELSE SubSeq(a, k + 1, Len(a))
    IN Trim([i \in 1 .. Len(q) |->
              (q[i] \div P2(r)) + (Lmb(q, i + 1) % P2(r)) * P2(Wd - r)])

RECURSIVE IntLen(_)
IntLen(x) == IF x = 0 THEN 0 ELSE 1 + IntLen(x \div 2)
MagLen(a) == IF a = <<>> THEN 0 ELSE Wd * (Len(a) - 1) + IntLen(a[Len(a)])

\* schoolbook binary long division: <<quotient, remainder>>
RECURSIVE DivBits(_, _, _, _)
DivBits(a, b, k, qr) ==
    IF k < 0 THEN qr
    ELSE LET r2 == MagAdd(MagShl(qr[2], 1), IF (Lmb(a, k \div Wd + 1) \div P2(k % Wd)) % 2 = 1 THEN <<1>> ELSE <<>>)
             ge == MagCmp(r2, b) >= 0
         IN DivBits(a, b, k - 1,
                    << MagAdd(MagShl(qr[1], 1), IF ge THEN <<1>> ELSE <<>>),
                       IF ge THEN MagSub(r2, b) ELSE r2 >>)
MagDivMod(a, b) == LET qr == DivBits(a, b, MagLen(a) - 1, << <<>>, <<>> >>)
                   IN << Trim(qr[1]), Trim(qr[2]) >>

RECURSIVE SqrtBits(_, _, _)
SqrtBits(a, k, r) ==
    IF k < 0 THEN r
    ELSE LET t == MagAdd(r, MagShl(<<1>>, k))
         IN SqrtBits(a, k - 1, IF MagCmp(MagMul(t, t), a) <= 0 THEN t ELSE r)
MagIsqrt(a) == SqrtBits(a, (MagLen(a) + 1) \div 2, <<>>)

RECURSIVE MagTz(_, _)
MagTz(a, i) == IF (a[i \div Wd + 1] \div P2(i % Wd)) % 2 = 1 THEN i ELSE MagTz(a, i + 1)

(*------------------------------- numbers ---------------------------------*)
Mag(x)     == Tail(x)
Sgn(x)     == x[1]
Mk(s, mag) == IF mag = <<>> THEN <<0>> ELSE <<s>> \o mag

B0 == <<0>>
B1 == <<1, 1>>
B2 == <<1, 2>>

RECURSIVE IntMag(_)
IntMag(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o IntMag(n \div Base)

BFromInt(n) == IF n = 0 THEN B0 ELSE IF n > 0 THEN <<1>> \o IntMag(n) ELSE <<-1>> \o IntMag(-n)   \* (J)

RECURSIVE MagInt(_)
MagInt(q) == IF q = <<>> THEN 0 ELSE Head(q) + Base * MagInt(Tail(q))
BToInt(x) == Sgn(x) * MagInt(Mag(x))                                               \* (J)

BNeg(x) == <<-Sgn(x)>> \o Mag(x)
BAbs(x) == IF Sgn(x) < 0 THEN BNeg(x) ELSE x
BIsZero(x) == Sgn(x) = 0

BCmp(x, y) ==                                                                      \* (J)
    IF Sgn(x) # Sgn(y) THEN (IF Sgn(x) < Sgn(y) THEN -1 ELSE 1)
    ELSE IF Sgn(x) = 0 THEN 0
    ELSE Sgn(x) * MagCmp(Mag(x), Mag(y))

BAdd(x, y) ==                                                                      \* (J)
    IF Sgn(x) = 0 THEN y ELSE IF Sgn(y) = 0 THEN x
    ELSE IF Sgn(x) = Sgn(y) THEN Mk(Sgn(x), MagAdd(Mag(x), Mag(y)))
    ELSE LET c == MagCmp(Mag(x), Mag(y))
         IN IF c = 0 THEN B0
            ELSE IF c > 0 THEN Mk(Sgn(x), MagSub(Mag(x), Mag(y)))
            ELSE Mk(Sgn(y), MagSub(Mag(y), Mag(x)))
BSub(x, y) == BAdd(x, BNeg(y))                                                     \* (J)
BMul(x, y) == Mk(Sgn(x) * Sgn(y), MagMul(Mag(x), Mag(y)))                          \* (J)

\* floor division and its remainder; the divisor is positive
BDiv(x, y) ==                                                                      \* (J)
    LET qr == MagDivMod(Mag(x), Mag(y))
    IN IF Sgn(x) >= 0 THEN Mk(1, qr[1])
       ELSE Mk(-1, IF qr[2] = <<>> THEN qr[1] ELSE MagAdd(qr[1], <<1>>))
BMod(x, y) ==                                                                      \* (J)
    LET qr == MagDivMod(Mag(x), Mag(y))
    IN IF Sgn(x) >= 0 \/ qr[2] = <<>> THEN Mk(1, qr[2]) ELSE Mk(1, MagSub(Mag(y), qr[2]))

BShl(x, n) == Mk(Sgn(x), MagShl(Mag(x), n))                                        \* (J)
BShr(x, n) ==                                                                      \* (J) floor
    LET q == MagShr(Mag(x), n)
    IN IF Sgn(x) >= 0 THEN Mk(1, q)
       ELSE Mk(-1, IF MagShl(q, n) = Mag(x) THEN q ELSE MagAdd(q, <<1>>))

BLen(x)   == MagLen(Mag(x))                                                        \* (J) bits of |x|
BIsqrt(x) == Mk(1, MagIsqrt(Mag(x)))                                               \* (J) floor(sqrt(x)), x >= 0
BTz(x)    == IF Sgn(x) = 0 THEN 0 ELSE MagTz(Mag(x), 0)                            \* (J) trailing zero bits

BIsOdd(x) == Sgn(x) # 0 /\ x[2] % 2 = 1
BPow2(n)  == BShl(B1, n)
BLe(x, y) == BCmp(x, y) <= 0
BLt(x, y) == BCmp(x, y) < 0
BMin(x, y) == IF BLe(x, y) THEN x ELSE y
BMax(x, y) == IF BLe(x, y) THEN y ELSE x
\* bits lo .. lo+n-1 of a number that is not negative
BField(x, lo, n) == BMod(BShr(x, lo), BPow2(n))
\* ceiling of x / 2^n
BShrC(x, n) == BNeg(BShr(BNeg(x), n))
BDivC(x, y) == BNeg(BDiv(BNeg(x), y))

RECURSIVE BPow(_, _)
BPow(x, n) == IF n = 0 THEN B1
              ELSE LET h == BPow(x, n \div 2)
                       s == BMul(h, h)
                   IN IF n % 2 = 1 THEN BMul(s, x) ELSE s

RECURSIVE BPowMod(_, _, _)
BPowMod(x, n, m) ==                                                                \* (J)
    IF n = 0 THEN BMod(B1, m)
    ELSE LET h == BPowMod(x, n \div 2, m)
             s == BMod(BMul(h, h), m)
         IN IF n % 2 = 1 THEN BMod(BMul(s, x), m) ELSE s
=============================================================================
