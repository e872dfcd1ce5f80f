------------------------------- MODULE FpOps -------------------------------
(***************************************************************************)
(* What the exactly specified functions return.  Each operator maps data   *)
(* (and integers) to a result [v, fl (flags the operation raises)] plus,   *)
(* where there are further outputs, q (an integer) and w (a datum).        *)
(***************************************************************************)
EXTENDS IEEE754

B01(b) == IF b THEN 1 ELSE 0

(*----------------------------- classification -----------------------------*)
FpClass(F, x) ==                       \* glibc: FP_NAN 0, FP_INFINITE 1, FP_ZERO 2, FP_SUBNORMAL 3, FP_NORMAL 4
    CASE IsNaN(x) -> 0 [] IsInf(x) -> 1 [] IsZero(x) -> 2
      [] IsNormalNum(F, x) -> 4 [] OTHER -> 3

Pred1(f, F, x) ==
    CASE f = "isnan"      -> B01(IsNaN(x))
      [] f = "isinf"      -> B01(IsInf(x))
      [] f = "isfinite"   -> B01(IsFin(x))
      [] f = "isnormal"   -> B01(IsNormalNum(F, x))
      [] f = "signbit"    -> x.s
      [] f = "fpclassify" -> FpClass(F, x)

Pred2(f, x, y) ==
    IF IsNaN(x) \/ IsNaN(y) THEN B01(f = "isunordered")
    ELSE LET c == CmpVal(x, y)
         IN CASE f = "isgreater"      -> B01(c > 0)
              [] f = "isgreaterequal" -> B01(c >= 0)
              [] f = "isless"         -> B01(c < 0)
              [] f = "islessequal"    -> B01(c <= 0)
              [] f = "islessgreater"  -> B01(c # 0)
              [] f = "isunordered"    -> 0

(*-------------------------------- selection -------------------------------*)
\* fmin/fmax: the set of allowed results (either zero when both are zeros)
FMinMax(f, x, y) ==
    IF IsNaN(x) THEN {y} ELSE IF IsNaN(y) THEN {x}
    ELSE LET c == CmpVal(x, y)
         IN IF c = 0 THEN {x, y}
            ELSE IF (f = "fmin") = (c < 0) THEN {x} ELSE {y}

FDim(F, md, x, y) ==
    IF IsNaN(x) \/ IsNaN(y) THEN Exact(NaN)
    ELSE IF CmpVal(x, y) <= 0 THEN Exact(Zero(0))
    ELSE Sub(F, md, x, y)

(*----------------------------- nearest integer ----------------------------*)
NearestMode(f, md, x) == CASE f = "ceil" -> UP [] f = "floor" -> DN [] f = "trunc" -> TZ [] OTHER -> md
Nearest(f, F, md, x) == Norm(F, RoundIntegral(x, NearestMode(f, md, x), f = "round"))

(*---------------------------- remainder family ----------------------------*)
\* x, y finite, y # 0, x # 0:  <<|x| mod |y| as <<m, e>>, low bits of the truncated quotient (mod 16)>>
ModExact(x, y) ==
    IF CmpMag(x.m, x.e, y.m, y.e) < 0 THEN << x.m, x.e, 0 >>
    ELSE IF x.e >= y.e
    THEN LET d  == BShl(y.m, 4)
             r  == BMod(BMul(x.m, BPowMod(B2, x.e - y.e, d)), d)
         IN << BMod(r, y.m), y.e, BToInt(BDiv(r, y.m)) >>
    ELSE LET d  == BShl(y.m, y.e - x.e)
             r  == BMod(x.m, BShl(d, 4))
         IN << BMod(r, d), x.e, BToInt(BDiv(r, d)) >>

FMod(F, x, y) ==
    IF IsNaN(x) \/ IsNaN(y) THEN Exact(NaN)
    ELSE IF IsInf(x) \/ IsZero(y) THEN Invalid
    ELSE IF IsInf(y) \/ IsZero(x) THEN Exact(x)
    ELSE LET t == ModExact(x, y)
         IN Exact(IF BIsZero(t[1]) THEN Zero(x.s) ELSE Norm(F, [c |-> "fin", s |-> x.s, m |-> t[1], e |-> t[2]]))

\* remainder and the low quotient bits with the sign of x/y
RemQuo(F, x, y) ==
    IF IsNaN(x) \/ IsNaN(y) THEN [v |-> NaN, fl |-> 0, q |-> 0, qv |-> FALSE]
    ELSE IF IsInf(x) \/ IsZero(y) THEN [v |-> NaN, fl |-> FInvalid, q |-> 0, qv |-> FALSE]
    ELSE IF IsInf(y) \/ IsZero(x) THEN [v |-> x, fl |-> 0, q |-> 0, qv |-> TRUE]
    ELSE LET t  == ModExact(x, y)
             c  == IF BIsZero(t[1]) THEN -1 ELSE CmpMag(BShl(t[1], 1), t[2], y.m, y.e)
             up == c > 0 \/ (c = 0 /\ t[3] % 2 = 1)
             \* up: r - |y|, on a common exponent
             e  == Min2(t[2], y.e)
             rr == IF up THEN BSub(BShl(t[1], t[2] - e), BShl(y.m, y.e - e)) ELSE BShl(t[1], t[2] - e)
             s  == IF rr[1] < 0 THEN 1 - x.s ELSE x.s
         IN [ v  |-> IF BIsZero(rr) THEN Zero(x.s)
                     ELSE Norm(F, [c |-> "fin", s |-> s, m |-> BAbs(rr), e |-> e]),
              fl |-> 0, qv |-> TRUE,
              q  |-> (IF x.s # y.s THEN -1 ELSE 1) * ((t[3] + B01(up)) % 8) ]

(*------------------------- decomposition and scaling ----------------------*)
FrExp(F, x) == IF ~IsNum(x) THEN [v |-> x, q |-> 0, qv |-> IsZero(x)]
               ELSE LET L == BLen(x.m) IN [v |-> Norm(F, [x EXCEPT !.e = -L]), q |-> x.e + L, qv |-> TRUE]
ExpOf(x) == x.e + BLen(x.m) - 1
IntMaxV == 2147483647
IntMinV == -2147483647 - 1
ILogB(x) == CASE IsNaN(x) -> IntMinV [] IsInf(x) -> IntMaxV [] IsZero(x) -> IntMinV [] OTHER -> ExpOf(x)
LogB(F, x) == CASE IsNaN(x) -> Exact(NaN) [] IsInf(x) -> Exact(Inf(0))
                [] IsZero(x) -> [v |-> Inf(1), fl |-> FDivZero]
                [] OTHER -> LET k == ExpOf(x)
                            IN Exact(IF k = 0 THEN Zero(0)
                                     ELSE Norm(F, [c |-> "fin", s |-> B01(k < 0), m |-> BFromInt(Abs(k)), e |-> 0]))
ModF(F, x) == IF IsNaN(x) THEN [v |-> NaN, w |-> NaN]
              ELSE IF ~IsNum(x) THEN [v |-> Zero(x.s), w |-> x]
              ELSE LET i == Norm(F, RoundIntegral(x, TZ, FALSE))
                       d == IF IsZero(i) THEN x
                            ELSE LET t == SumExact(x, Neg(i)) IN RndSigned(F, NE, t[1], t[2], x.s).v
                   IN [v |-> IF IsZero(d) THEN Zero(x.s) ELSE d, w |-> i]
Clamp(n) == Max2(-100000, Min2(100000, n))
Scale2(F, md, x, n) == IF ~IsNum(x) THEN Exact(x) ELSE Rnd(F, md, x.s, x.m, x.e + Clamp(n), FALSE)

(*----------------------------- adjacent values ----------------------------*)
StepUp(F, x) ==          \* toward +inf; not NaN
    CASE IsInf(x) -> IF x.s = 1 THEN MaxFin(F, 1) ELSE x
      [] IsZero(x) -> MinSub(F, 0)
      [] x.s = 0 -> LET m == BAdd(x.m, B1)
                    IN IF BLen(m) <= F.p THEN [x EXCEPT !.m = m]
                       ELSE IF x.e = F.qmax THEN Inf(0) ELSE [x EXCEPT !.m = BPow2(F.p - 1), !.e = x.e + 1]
      [] OTHER -> LET m == BSub(x.m, B1)
                  IN IF BIsZero(m) THEN Zero(1)
                     ELSE IF BLen(x.m) = F.p /\ BLen(m) < F.p /\ x.e > F.q
                          THEN [x EXCEPT !.m = BSub(BPow2(F.p), B1), !.e = x.e - 1]
                          ELSE [x EXCEPT !.m = m]
StepDown(F, x) == Neg(StepUp(F, Neg(x)))
NextUp(F, x)   == IF IsNaN(x) THEN NaN ELSE StepUp(F, x)
NextDown(F, x) == IF IsNaN(x) THEN NaN ELSE StepDown(F, x)

\* y may be of a wider format (nexttoward); yF: y as a datum of F when they compare equal
NextAfter(F, x, y) ==
    IF IsNaN(x) \/ IsNaN(y) THEN Exact(NaN)
    ELSE LET c == CmpVal(x, y)
         IN IF c = 0 THEN Exact(IF IsNum(y) THEN x ELSE [y EXCEPT !.e = 0])
            ELSE LET r == IF c < 0 THEN StepUp(F, x) ELSE StepDown(F, x)
                 IN [v |-> r, fl |-> IF IsInf(r) /\ ~IsInf(x) THEN FOverflow + FInexact
                                     ELSE IF IsZero(r) \/ (IsNum(r) /\ BLen(r.m) < F.p) THEN FUnderflow + FInexact ELSE 0]
=============================================================================
