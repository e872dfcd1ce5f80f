------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* What a call of a public function may do: the values it may return and   *)
(* the floating-point exceptions and errno it may and must report.         *)
(*                                                                         *)
(*   SpecialValue(f, ..)  the operands for which ISO C fixes the result    *)
(*   Enclose(f, ..)       an enclosure of the real value otherwise         *)
(*   ValueOK(ev)          the recorded outputs are allowed                 *)
(*   MustFlags/MayFlags   flags raised by the call                         *)
(*                                                                         *)
(* An event is a record with f (function), t (type "f" "d" "l"), p (path   *)
(* through the library), m (rounding mode), a (arguments, raw encodings),  *)
(* n (integer argument), r (results, raw encodings), q (integer output).   *)
(***************************************************************************)
EXTENDS Transcend

None == [c |-> "none", s |-> 0, m |-> B0, e |-> 0]
One1 == [c |-> "fin", s |-> 0, m |-> B1, e |-> 0]
IsOne(x) == IsNum(x) /\ x.s = 0 /\ CmpMag(x.m, x.e, B1, 0) = 0
IsMOne(x) == IsNum(x) /\ x.s = 1 /\ CmpMag(x.m, x.e, B1, 0) = 0
Lt1(x) == IsZero(x) \/ (IsNum(x) /\ CmpMag(x.m, x.e, B1, 0) < 0)          \* |x| < 1
Neg1(x) == x.s = 1
IsIntegral(x) == IsZero(x) \/ (IsNum(x) /\ (x.e >= 0 \/ BTz(x.m) >= -x.e))
IsOddInt(x) == IsNum(x) /\ IsIntegral(x) /\ x.e <= 0 /\ BTz(x.m) = -x.e

(*----------------- results fixed by ISO C (Annex F), by name --------------*)
\* [v: the value, fl: the flags that must be raised];  v = None when the value is an ordinary one
Ordinary == [v |-> None, fl |-> 0]
PoleErr(s) == [v |-> Inf(s), fl |-> FDivZero]

SpExp(x)   == IF IsZero(x) THEN Exact(One1) ELSE IF IsInf(x) THEN Exact(IF Neg1(x) THEN Zero(0) ELSE x) ELSE Ordinary
SpExpm1(x) == IF IsZero(x) THEN Exact(x) ELSE IF IsInf(x) THEN Exact(IF Neg1(x) THEN Neg(One1) ELSE x) ELSE Ordinary
SpLog(x)   == IF IsZero(x) THEN PoleErr(1) ELSE IF Neg1(x) THEN Invalid ELSE IF IsInf(x) THEN Exact(x)
              ELSE IF IsOne(x) THEN Exact(Zero(0)) ELSE Ordinary
SpLog1p(x) == IF IsZero(x) THEN Exact(x) ELSE IF IsMOne(x) THEN PoleErr(1)
              ELSE IF Neg1(x) /\ ~Lt1(x) THEN Invalid ELSE IF IsInf(x) THEN Exact(x) ELSE Ordinary
SpSinTan(x) == IF IsZero(x) THEN Exact(x) ELSE IF IsInf(x) THEN Invalid ELSE Ordinary
SpCos(x)   == IF IsZero(x) THEN Exact(One1) ELSE IF IsInf(x) THEN Invalid ELSE Ordinary
SpAsin(x)  == IF IsZero(x) THEN Exact(x) ELSE IF ~Lt1(x) /\ ~IsOne(x) /\ ~IsMOne(x) THEN Invalid ELSE Ordinary
SpAcos(x)  == IF IsOne(x) THEN Exact(Zero(0)) ELSE IF ~Lt1(x) /\ ~IsMOne(x) THEN Invalid ELSE Ordinary
SpAtan(x)  == IF IsZero(x) THEN Exact(x) ELSE Ordinary
SpAtan2(y, x) == IF IsZero(y) /\ ~Neg1(x) THEN Exact(Zero(y.s))
                 ELSE IF IsInf(x) /\ ~Neg1(x) /\ ~IsInf(y) THEN Exact(Zero(y.s)) ELSE Ordinary
SpCbrt(x)  == IF ~IsNum(x) THEN Exact(x) ELSE Ordinary
SpGamma(x) == IF IsZero(x) THEN PoleErr(x.s)
              ELSE IF IsInf(x) THEN (IF Neg1(x) THEN Invalid ELSE Exact(x))
              ELSE IF Neg1(x) /\ IsIntegral(x) THEN Invalid ELSE Ordinary
SpLGamma(x) == IF IsInf(x) THEN Exact(Inf(0))
               ELSE IF IsZero(x) \/ (Neg1(x) /\ IsIntegral(x)) THEN PoleErr(0)
               ELSE IF IsOne(x) \/ (x.s = 0 /\ CmpMag(x.m, x.e, B1, 1) = 0) THEN Exact(Zero(0)) ELSE Ordinary
SpPow(x, y) ==
    LET odd == IsOddInt(y)
        sg  == IF odd THEN x.s ELSE 0
    IN IF IsZero(y) \/ IsOne(x) THEN Exact(One1)
       ELSE IF IsNaN(x) \/ IsNaN(y) THEN Exact(NaN)
       ELSE IF IsZero(x) THEN (IF Neg1(y) THEN (IF IsInf(y) THEN [v |-> Inf(0), fl |-> -1] ELSE PoleErr(sg))
                               ELSE Exact(Zero(sg)))
       ELSE IF IsMOne(x) /\ IsInf(y) THEN Exact(One1)
       ELSE IF IsInf(y) THEN Exact(IF Lt1(x) = Neg1(y) THEN Inf(0) ELSE Zero(0))
       ELSE IF IsInf(x) THEN Exact(IF Neg1(y) THEN Zero(sg) ELSE Inf(sg))
       ELSE IF Neg1(x) /\ ~IsIntegral(y) THEN Invalid
       ELSE IF IsMOne(x) THEN Exact(IF odd THEN x ELSE One1)
       ELSE Ordinary

SpecialValue(f, a) ==
    IF f = "hypot" \/ f = "hypot3"
    THEN (IF \E i \in 1 .. Len(a) : IsInf(a[i]) THEN Exact(Inf(0))
          ELSE IF \E i \in 1 .. Len(a) : IsNaN(a[i]) THEN Exact(NaN)
          ELSE IF \A i \in 1 .. Len(a) : IsZero(a[i]) THEN Exact(Zero(0)) ELSE Ordinary)
    ELSE IF f = "pow" THEN SpPow(a[1], a[2])
    ELSE IF \E i \in 1 .. Len(a) : IsNaN(a[i]) THEN Exact(NaN)
    ELSE CASE f \in {"exp", "exp2"}              -> SpExp(a[1])
           [] f = "expm1"                        -> SpExpm1(a[1])
           [] f \in {"log", "log2", "log10"}     -> SpLog(a[1])
           [] f = "log1p"                        -> SpLog1p(a[1])
           [] f \in {"sin", "tan"}               -> SpSinTan(a[1])
           [] f = "cos"                          -> SpCos(a[1])
           [] f = "asin"                         -> SpAsin(a[1])
           [] f = "acos"                         -> SpAcos(a[1])
           [] f = "atan"                         -> SpAtan(a[1])
           [] f = "atan2"                        -> SpAtan2(a[1], a[2])
           [] f = "cbrt"                         -> SpCbrt(a[1])
           [] f \in {"gamma", "tgamma"}          -> SpGamma(a[1])
           [] f = "lgamma"                       -> SpLGamma(a[1])

PiTimes(s, num, sh) == EncSigned(s, BShr(BMul(BFromInt(num), Pi(Base0)), sh), Base0)     \* num * pi / 2^sh

\* the real value at operands for which SpecialValue is Ordinary
Enclose(f, a) ==
    LET x == a[1]
    IN CASE f = "exp"   -> EncExp(x)
         [] f = "exp2"  -> EncExp2(x)
         [] f = "expm1" -> EncExpm1(x)
         [] f = "log"   -> EncLn(x)
         [] f = "log2"  -> EncLog2(x)
         [] f = "log10" -> EncLog10(x)
         [] f = "log1p" -> EncLog1p(x)
         [] f = "sin"   -> EncSin(x)
         [] f = "cos"   -> EncCos(x)
         [] f = "tan"   -> EncTan(x)
         [] f = "asin"  -> IF Lt1(x) THEN EncAsin(x) ELSE PiTimes(x.s, 1, 1)
         [] f = "acos"  -> IF IsZero(x) THEN PiTimes(0, 1, 1) ELSE IF Lt1(x) THEN EncAcos(x) ELSE PiTimes(0, 1, 0)
         [] f = "atan"  -> IF IsInf(x) THEN PiTimes(x.s, 1, 1) ELSE EncAtan(x)
         [] f = "atan2" ->
              LET z == a[2]
              IN IF IsInf(x) THEN (IF IsInf(z) THEN PiTimes(x.s, IF z.s = 1 THEN 3 ELSE 1, 2) ELSE PiTimes(x.s, 1, 1))
                 ELSE IF IsZero(z) /\ ~IsZero(x) THEN PiTimes(x.s, 1, 1)
                 ELSE IF IsZero(x) \/ IsInf(z) THEN PiTimes(x.s, 1, 0)
                 ELSE EncAtan2(x, z)
         [] f = "cbrt"  -> EncCbrt(x)
         [] f = "hypot" -> EncHypot(x, a[2], Zero(0))
         [] f = "hypot3" -> EncHypot(x, a[2], a[3])
         [] f = "pow"   -> LET e == EncPow([x EXCEPT !.s = 0], a[2])
                           IN IF x.s = 1 /\ IsOddInt(a[2]) THEN [e EXCEPT !.v = BNeg(e.v)] ELSE e
         [] f \in {"gamma", "tgamma"} -> EncGamma(x)
         [] f = "lgamma" -> EncLGamma(x)

(*------------------------------ error budgets -----------------------------*)
\* in sixteenths of an ulp: round to nearest, directed modes
Budget(f, t) ==
    CASE f \in {"exp", "exp2", "log", "log2"} -> <<32, 64>>
      [] f \in {"expm1", "log10", "log1p"}    -> <<64, 128>>
      [] f \in {"sin", "cos"}                 -> <<80, 160>>
      [] f = "tan"                            -> <<128, 256>>
      [] f \in {"asin", "acos", "atan"}       -> <<64, 128>>
      [] f = "atan2"                          -> <<96, 192>>
      [] f = "pow"                            -> IF t = "l" THEN <<64, 64>> ELSE <<16, IF t = "f" THEN 24 ELSE 17>>
      [] f = "cbrt"                           -> <<80, 128>>
      [] f = "hypot"                          -> <<64, 128>>
      [] f = "hypot3"                         -> <<96, 192>>
      [] f \in {"gamma", "tgamma", "lgamma"}  -> <<512, 512>>
Tol(f, t, md) == Budget(f, t)[IF md = NE THEN 1 ELSE 2]

ApproxFns == {"exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "sin", "cos", "tan", "asin", "acos", "atan",
              "atan2", "pow", "cbrt", "hypot", "hypot3", "gamma", "tgamma", "lgamma"}
Pred1Fns  == {"isnan", "isinf", "isfinite", "isnormal", "signbit", "fpclassify"}
Pred2Fns  == {"isgreater", "isgreaterequal", "isless", "islessequal", "islessgreater", "isunordered"}
NearFns   == {"ceil", "floor", "trunc", "round", "rint", "nearbyint"}

(*--------------------------------- values ---------------------------------*)
\* lgamma near its zeros on the negative axis, and near 1 and 2: absolute error on the scale of 1
LGammaOK(F, md, en, y, n16) ==
    WithinUlps(F, md, en, y, n16)
    \/ (IsFin(y) /\ LET S == Max2(en.sc, Max2(F.p + 4, IF IsZero(y) THEN 0 ELSE -y.e))
                        b == IF IsZero(y) THEN B0 ELSE BShl(SM(y), y.e + S)
                    IN BLe(BAbs(BSub(BShl(en.v, S - en.sc), b)), BAdd(BShl(en.r, S - en.sc), BShl(BFromInt(n16), S - F.p - 3))))

\* results far outside the range are delivered as the rounding mode prescribes (pow promises it)
RangeOK(F, md, en, y) ==
    LET neg == en.v[1] < 0  s == B01(neg)  E == BLen(BAbs(en.v)) - 1 - en.sc
        away == (md = UP /\ s = 0) \/ (md = DN /\ s = 1)
    IN /\ E > F.emax + 1 => Same(y, OverflowValue(F, md, s))
       /\ E < F.q - 2 => Same(y, IF away THEN [c |-> "fin", s |-> s, m |-> B1, e |-> F.q] ELSE Zero(s))

ApproxOK(f, t, F, md, a, y) ==
    LET sp == SpecialValue(f, a)
    IN IF sp.v.c # "none" THEN Same(y, sp.v)
       ELSE IF f = "lgamma" THEN LGammaOK(F, md, Enclose(f, a), y, Tol(f, t, md))
       ELSE IF f = "pow" THEN LET en == Enclose(f, a) IN WithinUlps(F, md, en, y, Tol(f, t, md)) /\ RangeOK(F, md, en, y)
       ELSE WithinUlps(F, md, Enclose(f, a), y, Tol(f, t, md))

\* the exactly specified functions: result record
ExactRes(f, F, md, a, n) ==
    CASE f \in NearFns -> Exact(Nearest(f, F, md, a[1]))
      [] f = "fabs" -> Exact([a[1] EXCEPT !.s = 0])
      [] f = "copysign" -> Exact([a[1] EXCEPT !.s = a[2].s])
      [] f = "fdim" -> FDim(F, md, a[1], a[2])
      [] f = "fmod" -> FMod(F, a[1], a[2])
      [] f = "remainder" -> RemQuo(F, a[1], a[2])
      [] f \in {"ldexp", "scalbn", "scalbln"} -> Scale2(F, md, a[1], n)
      [] f = "logb" -> LogB(F, a[1])
      [] f = "nextafter" -> NextAfter(F, a[1], a[2])
      [] f = "nexttoward" -> NextAfter(F, a[1], a[2])
      [] f = "nextup" -> Exact(NextUp(F, a[1]))
      [] f = "nextdown" -> Exact(NextDown(F, a[1]))
      [] f = "fma" -> Fma(F, md, a[1], a[2], a[3])
      [] f = "sqrt" -> Sqrt(F, md, a[1])

ValueOK(ev) ==
    LET F == Fmt(ev.t)
        arg(i) == IF ev.f = "nexttoward" /\ i = 2 THEN Decode(F80, ev.a[2]) ELSE Decode(F, ev.a[i])
        a == [i \in 1 .. Len(ev.a) |-> arg(i)]
        f == ev.f
        y == Decode(F, ev.r[1])
    IN CASE f \in ApproxFns -> ApproxOK(f, ev.t, F, ev.m, a, y)
         [] f \in Pred1Fns  -> ev.q = Pred1(f, F, a[1])
         [] f \in Pred2Fns  -> ev.q = Pred2(f, a[1], a[2])
         [] f \in {"fmin", "fmax"} -> \E v \in FMinMax(f, a[1], a[2]) : Same(y, v)
         [] f \in {"fabs", "copysign"} ->            \* all other bits untouched; a NaN stays a NaN
              /\ IF a[1].c = "nan" THEN y.c = "nan" ELSE BField(ev.r[1], 0, F.n - 1) = BField(ev.a[1], 0, F.n - 1)
              /\ y.s = (IF f = "fabs" THEN 0 ELSE a[2].s)
         [] f = "remquo" -> LET r == RemQuo(F, a[1], a[2])
                            IN Same(y, r.v) /\ (r.qv => (ev.q % 8 = r.q % 8)
                                                        /\ (r.q # 0 => (ev.q < 0) = (r.q < 0)))
         [] f = "frexp" -> LET r == FrExp(F, a[1]) IN Same(y, r.v) /\ (r.qv => ev.q = r.q)
         [] f = "ilogb" -> ev.q = ILogB(a[1])
         [] f = "modf"  -> LET r == ModF(F, a[1]) IN Same(y, r.v) /\ Same(Decode(F, ev.r[2]), r.w)
         [] OTHER -> Same(y, ExactRes(f, F, ev.m, a, ev.n).v)

Expected(ev) ==
    LET F == Fmt(ev.t)
        arg(i) == IF ev.f = "nexttoward" /\ i = 2 THEN Decode(F80, ev.a[2]) ELSE Decode(F, ev.a[i])
        a == [i \in 1 .. Len(ev.a) |-> arg(i)]
        f == ev.f
    IN CASE f \in ApproxFns -> LET sp == SpecialValue(f, a) IN IF sp.v.c # "none" THEN <<"value", sp.v>>
                                                              ELSE LET e == Enclose(f, a)  k == Max2(0, BLen(e.v) - F.p - 8)
                                                                   IN <<"about", IF e.v[1] < 0 THEN 1 ELSE 0, BShr(BAbs(e.v), k), k - e.sc>>
         [] f \in Pred1Fns  -> <<"is", Pred1(f, F, a[1])>>
         [] f \in Pred2Fns  -> <<"is", Pred2(f, a[1], a[2])>>
         [] f \in {"fmin", "fmax"} -> <<"one of", FMinMax(f, a[1], a[2])>>
         [] f \in {"remquo", "remainder"} -> <<"value", RemQuo(F, a[1], a[2])>>
         [] f = "frexp" -> <<"value", FrExp(F, a[1])>>
         [] f = "ilogb" -> <<"is", ILogB(a[1])>>
         [] f = "modf"  -> <<"value", ModF(F, a[1])>>
         [] OTHER -> <<"value", ExactRes(f, F, ev.m, a, ev.n)>>

(*------------------------- exceptions and errno ---------------------------*)
\* What ISO C / IEEE-754 say the call reports; -1: left open.
SpecFlags(ev) ==
    LET F == Fmt(ev.t)
        arg(i) == IF ev.f = "nexttoward" /\ i = 2 THEN Decode(F80, ev.a[2]) ELSE Decode(F, ev.a[i])
        a == [i \in 1 .. Len(ev.a) |-> arg(i)]
        f == ev.f
    IN CASE f \in ApproxFns -> SpecialValue(f, a).fl
         [] f \in Pred1Fns \cup Pred2Fns \cup {"fmin", "fmax", "fabs", "copysign", "frexp", "modf"} -> 0
         [] f = "ilogb" -> IF IsNum(a[1]) THEN 0 ELSE FInvalid
         [] f = "lerp" -> -1
         [] f = "fma" /\ IsNaN(a[3]) -> -1          \* fma(0, inf, NaN): implementation-defined
         [] OTHER -> IF f = "remquo" THEN RemQuo(F, a[1], a[2]).fl ELSE ExactRes(f, F, ev.m, a, ev.n).fl

\* what the value properties say about flags: predicates raise nothing, nearbyint no inexact, sqrt inexact exactly when it rounds
ConstPaths == {"clang-ce", "clang-nobce",         \* the constant-evaluation code run at run time: flags mean nothing there
               "const-gcc", "const-clang", "const-gcc-det", "const-clang-det",      \* evaluated by the compiler
               "early-gcc", "early-clang", "early-gcc-det", "early-clang-det", "early-gcc-fma-det", "early-clang-fma-det",
               "clang-nobrt", "clang-nobrt-sse2", "clang-nobrt-avx2"}      \* software kernels of a compiler without builtins
HasBits(fl, b) == (fl \div b) % 2 = 1
QuietOK(ev) ==
    CASE ev.f \in Pred1Fns \cup Pred2Fns -> ev.fl = 0
      [] ev.f = "nearbyint" -> ~HasBits(ev.fl, FInexact)
      [] ev.f = "sqrt" -> HasBits(ev.fl, FInexact) = HasBits(SpecFlags(ev), FInexact)
      [] OTHER -> TRUE

\* ISO C++ [cmath.syn]: a call that raises an exception other than inexact need not be a constant expression
MayBeNonConstant(ev) ==
    LET F == Fmt(ev.t)
        a == [i \in 1 .. Len(ev.a) |-> IF ev.f = "nexttoward" /\ i = 2 THEN Decode(F80, ev.a[2]) ELSE Decode(F, ev.a[i])]
        fl == SpecFlags(ev)
    IN \/ fl < 0
       \/ fl % 16 # 0
       \/ ev.f \in ApproxFns /\ SpecialValue(ev.f, a).v.c = "none"
          /\ LET en == Enclose(ev.f, a)  E == BLen(BAbs(en.v)) - 1 - en.sc IN E >= F.emax \/ E <= F.emin

\* configured with CCM_CONFIG_DISABLE_ERRNO the library does not touch errno (a C library function behind a builtin may),
\* and the explicitly raised exceptions are off too
NoErrnoPaths == {"gcc-noerrno", "gcc-noerrno-det"}
OwnFns == {"exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "pow", "cbrt", "hypot", "hypot3", "tgamma", "lgamma"}
DomainBits == 3      \* invalid and divide-by-zero
\* domain and pole errors raise exactly what they should
FlagsOK(ev) ==
    LET want == SpecFlags(ev)
    IN want < 0 \/ ev.p \in NoErrnoPaths \/ ev.fl % 4 = want % 4
\* errno: set with the code that belongs to the error by the functions that report through it, and never without an error
ErrnoFns == {"acos", "asin", "cos", "sin", "tan", "fmod", "remainder", "ilogb", "lgamma", "tgamma", "log", "log2", "log10",
             "log1p", "pow", "sqrt"}
EDOM1 == 1   ERANGE2 == 2
ErrnoMay(f, want, fl) ==
    IF want < 0 THEN {0, EDOM1, ERANGE2}
    ELSE {0}
         \cup (IF HasBits(want, FInvalid) THEN {EDOM1} ELSE {})
         \cup (IF HasBits(want, FDivZero) THEN {ERANGE2} \cup (IF f = "pow" THEN {EDOM1} ELSE {}) ELSE {})    \* pow(0, -y): EDOM by choice
         \cup (IF HasBits(fl, FOverflow) \/ HasBits(fl, FUnderflow) \/ HasBits(fl, FInexact) THEN {ERANGE2} ELSE {})
ErrnoMust(f, want) == f \in ErrnoFns /\ want >= 0 /\ (HasBits(want, FInvalid) \/ HasBits(want, FDivZero))
\* a range error: a result beyond every finite number. These functions report it on every path, when the mode makes the result
\* infinite; exp2 of float in every mode
RangeFns(t) == {"ldexp", "scalbn", "scalbln", "fdim"} \cup (IF t = "l" THEN {} ELSE {"tgamma", "lgamma"}) \cup (IF t = "f" THEN {"exp2"} ELSE {})
Finite(F, w) == LET x == Decode(F, w) IN x.c \in {"fin", "zero"}
Overflowed(ev) == LET F == Fmt(ev.t)
                  IN /\ \A i \in DOMAIN ev.a : Finite(F, ev.a[i])
                     /\ \/ Decode(F, ev.r[1]).c = "inf"
                        \/ ev.f = "exp2" /\ CmpVal(Decode(F, ev.a[1]), [c |-> "fin", s |-> 0, m |-> BFromInt(F.emax + 1), e |-> 0]) >= 0
RangeMust(ev) == ev.f \in RangeFns(ev.t) /\ ev.p \notin NoErrnoPaths /\ Overflowed(ev)
\* en: errno after the call when it was 0 before; en2: when it held ep before
ErrnoOK(ev) ==
    LET want == SpecFlags(ev)
    IN ev.en2 = (IF ev.en = 0 THEN ev.ep ELSE ev.en) /\
       IF (ev.p = "gcc-noerrno-det" /\ ev.f \in OwnFns) \/ (ev.p = "gcc-noerrno" /\ ev.f \in {"log", "log2", "log10"})
       THEN ev.en = 0
       ELSE /\ ev.en \in ErrnoMay(ev.f, want, ev.fl)
            /\ (ErrnoMust(ev.f, want) /\ ev.p \notin NoErrnoPaths) => ev.en # 0
            /\ RangeMust(ev) => ev.en = ERANGE2
=============================================================================
