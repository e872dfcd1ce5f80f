------------------------------ MODULE IEEE754 ------------------------------
(***************************************************************************)
(* Binary floating-point data and rounding, for any precision and exponent *)
(* range: the formats of x86-64 (float, double, 80-bit long double) and    *)
(* toy formats small enough to enumerate are instances of the same text.   *)
(*                                                                         *)
(* A datum is [c, s, m, e]: its class ("nan", "inf", "zero", "fin"), sign  *)
(* (0 or 1), and for finite non-zero data the integer significand m and    *)
(* exponent e of the value (-1)^s * m * 2^e, normalised as in the format   *)
(* (m has p bits, or e is the exponent q of the subnormals).               *)
(* MC754.tla checks the operators here on toy formats against the          *)
(* declarative definition of rounding (the nearest representable value).   *)
(***************************************************************************)
EXTENDS BigInt

Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a)     == IF a < 0 THEN -a ELSE a

RECURSIVE IPow2(_)
IPow2(n) == IF n = 0 THEN 1 ELSE 2 * IPow2(n - 1)

\* p: precision; w: width of the exponent field; ib: 1 if the leading bit of the significand is stored
MkFormat(p, w, ib) ==
    LET bias == IPow2(w - 1) - 1
    IN [p |-> p, w |-> w, ib |-> ib, sb |-> p - 1 + ib, n |-> p + w + ib,
        bias |-> bias, emax |-> bias, emin |-> 1 - bias,
        q |-> 2 - bias - p,               \* exponent of the least significant bit of subnormals
        qmax |-> bias - p + 1,            \* ... of the largest finite numbers
        eall |-> 2 * bias + 1]
F16 == MkFormat(11, 5, 0)
F32 == MkFormat(24, 8, 0)
F64 == MkFormat(53, 11, 0)
F80 == MkFormat(64, 15, 1)
Fmt(t) == CASE t = "f" -> F32 [] t = "d" -> F64 [] t = "l" -> F80

NE == 0   UP == 1   DN == 2   TZ == 3        \* rounding modes
Modes == {NE, UP, DN, TZ}

FInvalid == 1   FDivZero == 2   FOverflow == 4   FUnderflow == 8   FInexact == 16

NaN       == [c |-> "nan",  s |-> 0, m |-> B0, e |-> 0]
Inf(s)    == [c |-> "inf",  s |-> s, m |-> B0, e |-> 0]
Zero(s)   == [c |-> "zero", s |-> s, m |-> B0, e |-> 0]
MaxFin(F, s) == [c |-> "fin", s |-> s, m |-> BSub(BPow2(F.p), B1), e |-> F.qmax]
MinSub(F, s) == [c |-> "fin", s |-> s, m |-> B1, e |-> F.q]

IsNaN(d)  == d.c = "nan"
IsInf(d)  == d.c = "inf"
IsZero(d) == d.c = "zero"
IsFin(d)  == d.c = "fin" \/ d.c = "zero"      \* finite
IsNum(d)  == d.c = "fin"                      \* finite and not zero

(*------------------------------- encodings --------------------------------*)
SignBit(F, b)  == IF BLen(b) = F.n THEN 1 ELSE 0
ExpField(F, b) == BToInt(BField(b, F.sb, F.w))
SigField(F, b) == BField(b, 0, F.sb)

Decode(F, b) ==
    LET s == SignBit(F, b)
        E == ExpField(F, b)
        T == SigField(F, b)
        fr == IF F.ib = 1 THEN BField(T, 0, F.p - 1) ELSE T
    IN IF E = F.eall THEN (IF BIsZero(fr) THEN Inf(s) ELSE [NaN EXCEPT !.s = s])
       ELSE IF E = 0 THEN (IF BIsZero(T) THEN Zero(s) ELSE [c |-> "fin", s |-> s, m |-> T, e |-> F.q])
       ELSE [c |-> "fin", s |-> s, e |-> E - 1 + F.q,
             m |-> IF F.ib = 1 THEN T ELSE BAdd(T, BPow2(F.p - 1))]

\* the encodings the 80-bit format does not use (unnormals, pseudo-...) are outside every property
Canonical(F, b) ==
    F.ib = 0 \/ (LET E == ExpField(F, b)  I == BField(b, F.p - 1, 1)
                 IN IF E = 0 THEN BIsZero(I) ELSE ~BIsZero(I))
Quiet(F, b) == ~BIsZero(BField(b, F.p - 2, 1))      \* of a NaN: its quiet bit

IsNormalNum(F, d) == IsNum(d) /\ BLen(d.m) = F.p

\* the encoding of a datum (NaN: the default quiet one)
Encode(F, d) ==
    LET sg == IF d.s = 1 THEN BPow2(F.n - 1) ELSE B0
        body ==
          CASE d.c = "zero" -> B0
            [] d.c = "inf"  -> BAdd(BShl(BFromInt(F.eall), F.sb), IF F.ib = 1 THEN BPow2(F.p - 1) ELSE B0)
            [] d.c = "nan"  -> BAdd(BShl(BFromInt(F.eall), F.sb),
                                    BAdd(IF F.ib = 1 THEN BPow2(F.p - 1) ELSE B0, BPow2(F.p - 2)))
            [] OTHER -> IF BLen(d.m) < F.p THEN d.m
                        ELSE BAdd(BShl(BFromInt(d.e - F.q + 1), F.sb),
                                  IF F.ib = 1 THEN d.m ELSE BSub(d.m, BPow2(F.p - 1)))
    IN BAdd(sg, body)

(*------------------------------- comparison -------------------------------*)
\* magnitudes m1*2^e1 and m2*2^e2, both positive
CmpMag(m1, e1, m2, e2) ==
    LET t1 == BLen(m1) + e1  t2 == BLen(m2) + e2
    IN IF t1 # t2 THEN (IF t1 < t2 THEN -1 ELSE 1)
       ELSE IF e1 >= e2 THEN BCmp(BShl(m1, e1 - e2), m2) ELSE BCmp(m1, BShl(m2, e2 - e1))

\* -1, 0, 1; neither is a NaN
CmpVal(x, y) ==
    LET rank(d) == IF d.c = "inf" THEN (IF d.s = 1 THEN -2 ELSE 2)
                   ELSE IF d.c = "zero" THEN 0 ELSE (IF d.s = 1 THEN -1 ELSE 1)
        rx == rank(x)  ry == rank(y)
    IN IF rx # ry THEN (IF rx < ry THEN -1 ELSE 1)
       ELSE IF rx = 1 THEN CmpMag(x.m, x.e, y.m, y.e)
       ELSE IF rx = -1 THEN -CmpMag(x.m, x.e, y.m, y.e)
       ELSE 0

(*-------------------------------- rounding --------------------------------*)
RoundUpP(md, s, odd, c, inex) ==     \* c: remainder against one half (-1, 0, 1)
    inex /\ CASE md = NE -> c > 0 \/ (c = 0 /\ odd)
              [] md = UP -> s = 0
              [] md = DN -> s = 1
              [] OTHER   -> FALSE

OverflowValue(F, md, s) ==
    IF md = NE \/ (md = UP /\ s = 0) \/ (md = DN /\ s = 1) THEN Inf(s) ELSE MaxFin(F, s)

\* the integer m*2^-k (+ sticky) rounded: <<integer, inexact>>
RoundInt(md, s, m, k, st) ==
    LET t   == BShr(m, k)
        rem == BSub(m, BShl(t, k))
        inx == st \/ ~BIsZero(rem)
        c0  == BCmp(rem, BPow2(k - 1))
        c   == IF c0 = 0 /\ st THEN 1 ELSE c0
        up  == RoundUpP(md, s, BIsOdd(t), c, inx)
    IN << IF up THEN BAdd(t, B1) ELSE t, inx >>

\* The value (-1)^s * (m*2^e + tail) rounded once into F, where 0 < tail < 2^e if st and tail = 0
\* otherwise.  m > 0; if st, m has more than p bits.  Result: [v |-> datum, fl |-> flags raised],
\* tininess detected after rounding as x86 does.
Rnd(F, md, s, m, e, st) ==
    LET L == BLen(m)
        qn == e + L - F.p                  \* unbounded exponent
        q  == Max2(qn, F.q)
        ri == IF q <= e THEN << BShl(m, e - q), FALSE >> ELSE RoundInt(md, s, m, q - e, st)
        carry == BLen(ri[1]) > F.p
        mm == IF carry THEN BPow2(F.p - 1) ELSE ri[1]
        qq == IF carry THEN q + 1 ELSE q
        inx == ri[2]
    IN IF qq > F.qmax
       THEN [v |-> OverflowValue(F, md, s), fl |-> FOverflow + FInexact]
       ELSE LET v == IF BIsZero(mm) THEN Zero(s) ELSE [c |-> "fin", s |-> s, m |-> mm, e |-> qq]
                tiny == inx /\ qn < F.q /\ (\/ BLen(mm) < F.p
                                            \/ qn <= e
                                            \/ BLen(RoundInt(md, s, m, qn - e, st)[1]) <= F.p)
            IN [v |-> v, fl |-> (IF inx THEN FInexact ELSE 0) + (IF tiny THEN FUnderflow ELSE 0)]

\* the same for a value whose exponent may be far below the format: exact rational m/d (d > 0) times 2^e
RndQuot(F, md, s, m, d, e) ==
    LET k  == Max2(0, F.p + 3 + BLen(d) - BLen(m))
        mm == BShl(m, k)
        qo == BDiv(mm, d)
    IN Rnd(F, md, s, qo, e - k, ~BIsZero(BSub(mm, BMul(qo, d))))

Exact(v) == [v |-> v, fl |-> 0]
Invalid  == [v |-> NaN, fl |-> FInvalid]

Neg(x) == [x EXCEPT !.s = 1 - x.s]

\* signed integer significand of a finite datum
SM(x) == IF x.s = 1 THEN BNeg(x.m) ELSE x.m

\* datum of the exact value n*2^e rounded (n a signed big integer); sz: sign of an exact zero
RndSigned(F, md, n, e, sz) ==
    IF BIsZero(n) THEN Exact(Zero(sz))
    ELSE Rnd(F, md, IF n[1] < 0 THEN 1 ELSE 0, BAbs(n), e, FALSE)

\* exact sum of two finite data as <<n, e>>
SumExact(x, y) ==
    IF IsZero(x) THEN <<IF IsZero(y) THEN B0 ELSE SM(y), y.e>>
    ELSE IF IsZero(y) THEN <<SM(x), x.e>>
    ELSE LET e == Min2(x.e, y.e)
         IN << BAdd(BShl(SM(x), x.e - e), BShl(SM(y), y.e - e)), e >>

ZeroSumSign(md, sx, sy) == IF sx = sy THEN sx ELSE IF md = DN THEN 1 ELSE 0

Add(F, md, x, y) ==
    IF IsNaN(x) \/ IsNaN(y) THEN Exact(NaN)
    ELSE IF IsInf(x) THEN (IF IsInf(y) /\ x.s # y.s THEN Invalid ELSE Exact(x))
    ELSE IF IsInf(y) THEN Exact(y)
    ELSE LET t == SumExact(x, y) IN RndSigned(F, md, t[1], t[2], ZeroSumSign(md, x.s, y.s))
Sub(F, md, x, y) == Add(F, md, x, IF IsNaN(y) THEN y ELSE Neg(y))

Mul(F, md, x, y) ==
    LET s == (x.s + y.s) % 2
    IN IF IsNaN(x) \/ IsNaN(y) THEN Exact(NaN)
       ELSE IF IsInf(x) \/ IsInf(y) THEN (IF IsZero(x) \/ IsZero(y) THEN Invalid ELSE Exact(Inf(s)))
       ELSE IF IsZero(x) \/ IsZero(y) THEN Exact(Zero(s))
       ELSE Rnd(F, md, s, BMul(x.m, y.m), x.e + y.e, FALSE)

Div(F, md, x, y) ==
    LET s == (x.s + y.s) % 2
    IN IF IsNaN(x) \/ IsNaN(y) THEN Exact(NaN)
       ELSE IF IsInf(x) THEN (IF IsInf(y) THEN Invalid ELSE Exact(Inf(s)))
       ELSE IF IsInf(y) THEN Exact(Zero(s))
       ELSE IF IsZero(y) THEN (IF IsZero(x) THEN Invalid ELSE [v |-> Inf(s), fl |-> FDivZero])
       ELSE IF IsZero(x) THEN Exact(Zero(s))
       ELSE RndQuot(F, md, s, x.m, y.m, x.e - y.e)

Fma(F, md, x, y, z) ==
    LET s == (x.s + y.s) % 2
    IN IF (IsInf(x) /\ IsZero(y)) \/ (IsZero(x) /\ IsInf(y)) THEN Invalid
       ELSE IF IsNaN(x) \/ IsNaN(y) \/ IsNaN(z) THEN Exact(NaN)
       ELSE IF IsInf(x) \/ IsInf(y) THEN (IF IsInf(z) /\ z.s # s THEN Invalid ELSE Exact(Inf(s)))
       ELSE IF IsInf(z) THEN Exact(z)
       ELSE LET pz == IsZero(x) \/ IsZero(y)
                pr == IF pz THEN Zero(s) ELSE [c |-> "fin", s |-> s, m |-> BMul(x.m, y.m), e |-> x.e + y.e]
                t  == SumExact(pr, z)
            IN RndSigned(F, md, t[1], t[2], ZeroSumSign(md, s, z.s))

Sqrt(F, md, x) ==
    IF IsNaN(x) THEN Exact(NaN)
    ELSE IF IsZero(x) THEN Exact(x)
    ELSE IF x.s = 1 THEN Invalid
    ELSE IF IsInf(x) THEN Exact(x)
    ELSE LET k0 == 2 * F.p + 4
             k  == IF (x.e - k0) % 2 = 0 THEN k0 ELSE k0 + 1
             n  == BShl(x.m, k)
             r  == BIsqrt(n)
         IN Rnd(F, md, 0, r, (x.e - k) \div 2, ~BIsZero(BSub(n, BMul(r, r))))

\* rounding to an integral value in the format of x
RoundIntegral(x, md, away) ==        \* away: ties away from zero, else by mode md
    IF ~IsNum(x) THEN x
    ELSE IF x.e >= 0 THEN x
    ELSE LET k == -x.e
             r == IF away THEN << BShr(BAdd(x.m, BPow2(k - 1)), k), TRUE >>
                  ELSE RoundInt(md, x.s, x.m, k, FALSE)
         IN IF BIsZero(r[1]) THEN Zero(x.s) ELSE [c |-> "fin", s |-> x.s, m |-> r[1], e |-> 0]
\* (its significand is an integer and need not be normalised: see Norm)

\* normal form of an exactly representable finite datum
Norm(F, x) == IF ~IsNum(x) THEN x
              ELSE LET tz == BTz(x.m)
                       m0 == BShr(x.m, tz)
                       L == BLen(m0)
                       q == Max2(x.e + tz + L - F.p, F.q)
                   IN [x EXCEPT !.m = BShl(m0, x.e + tz - q), !.e = q]

Representable(F, m, e) ==
    BIsZero(m) \/ LET tz == BTz(m) IN BLen(m) - tz <= F.p /\ e + tz >= F.q /\ e + BLen(m) - 1 <= F.emax

\* value equality with the sign of zeros; any two NaNs are the same
Same(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN IsNaN(x) /\ IsNaN(y)
              ELSE x.c = y.c /\ x.s = y.s /\ (x.c = "fin" => CmpMag(x.m, x.e, y.m, y.e) = 0)
=============================================================================
