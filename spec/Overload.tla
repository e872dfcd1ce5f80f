------------------------------ MODULE Overload ------------------------------
(***************************************************************************)
(* Which floating-point call a call with integer or mixed arguments is.    *)
(* A type is a letter: b bool, c C signed/unsigned char, s S short, i I    *)
(* int, j J long, x X long long, f float, d double, l long double.         *)
(*                                                                         *)
(*   Promoted(ts)  the type ISO C++ [c.math] prescribes                    *)
(*   Common(ts)    std::common_type, which the library documents for min,  *)
(*                 max, fmin, fmax, fma and lerp                           *)
(*   Rule(g, ts)   [k: "fp", P: format, rt: result type]  the call at P    *)
(*                 [k: "int", ...]  the function on integers, exactly      *)
(***************************************************************************)
EXTENDS FpOps

FpT == {"f", "d", "l"}
IntT == {"b", "c", "C", "s", "S", "i", "I", "j", "J", "x", "X"}
IsFp(t) == t \in FpT
Bits(t) == CASE t = "b" -> 1 [] t \in {"c", "C"} -> 8 [] t \in {"s", "S"} -> 16 [] t \in {"i", "I"} -> 32 [] OTHER -> 64
Uns(t) == t \in {"b", "C", "S", "I", "J", "X"}
Rank(t) == CASE t = "b" -> 0 [] t \in {"c", "C"} -> 1 [] t \in {"s", "S"} -> 2 [] t \in {"i", "I"} -> 3 [] t \in {"j", "J"} -> 4 [] t \in {"x", "X"} -> 5
             [] t = "f" -> 6 [] t = "d" -> 7 [] t = "l" -> 8
TopFp(S) == IF "l" \in S THEN "l" ELSE IF "d" \in S THEN "d" ELSE "f"
TypesOf(ts) == { ts[k] : k \in DOMAIN ts }

Promoted(ts) == LET S == TypesOf(ts) IN IF "l" \in S THEN "l" ELSE IF S \subseteq {"f"} THEN "f" ELSE "d"

Lift(t) == IF Rank(t) < 3 THEN "i" ELSE t           \* integral promotion
MakeUns(t) == CASE t = "i" -> "I" [] t = "j" -> "J" [] t = "x" -> "X" [] OTHER -> t
Common2(t, u) ==
    IF t = u THEN t
    ELSE IF IsFp(t) \/ IsFp(u) THEN TopFp({t, u} \cap FpT)
    ELSE LET a == Lift(t)  b == Lift(u)
         IN IF a = b THEN a
            ELSE IF Uns(a) = Uns(b) THEN (IF Rank(a) < Rank(b) THEN b ELSE a)
            ELSE LET su == IF Uns(a) THEN a ELSE b  ss == IF Uns(a) THEN b ELSE a
                 IN IF Rank(su) >= Rank(ss) THEN su ELSE IF Bits(su) < Bits(ss) THEN ss ELSE MakeUns(ss)
Common(ts) == LET RECURSIVE C(_, _) C(k, acc) == IF k > Len(ts) THEN acc ELSE C(k + 1, Common2(acc, ts[k])) IN C(2, ts[1])

Classes == {"isnan", "isinf", "isfinite", "isnormal", "signbit", "isgreater", "isgreaterequal", "isless", "islessequal", "islessgreater", "isunordered"}
ByCommon == {"min", "max", "fmin", "fmax", "fma", "lerp"}
AllInt(ts) == TypesOf(ts) \subseteq IntT
\* (g: the name called, f: the function it is; a suffixed name has its own argument types)
Rule(g, f, ts) ==
    LET iso == Promoted(IF f = "nexttoward" THEN <<ts[1]>> ELSE ts)
        P == IF g = f /\ f \in ByCommon /\ ~(f = "fmax" /\ AllInt(ts) /\ ts[1] = ts[2]) THEN Common(ts) ELSE iso
    IN IF IsFp(P) THEN [k |-> "fp", P |-> P, rt |-> IF f \in Classes THEN "b" ELSE IF f = "ilogb" THEN "i" ELSE P]
       ELSE [k |-> "int", P |-> P, rt |-> P]

\* overloads the library does not offer; nothing is promised about them
Optional(g, ts) ==
    \/ g \in {"fpclassify", "cbrt", "ilogb", "logb", "frexp"}
    \/ g \in {"hypot", "atan2"} /\ Len(ts) = 2
    \/ g \in {"remainder", "copysign"} /\ ts[1] # ts[2]
    \/ g = "fdim" /\ ts[1] # ts[2] /\ ~(TypesOf(ts) \subseteq FpT)
    \/ g = "fma" /\ AllInt(ts)

\* an argument of type t as a datum; to format F in mode md
ArgDatum(t, a) == IF IsFp(t) THEN Decode(Fmt(t), a) ELSE IF BIsZero(a) THEN Zero(0) ELSE [c |-> "fin", s |-> IF a[1] < 0 THEN 1 ELSE 0, m |-> BAbs(a), e |-> 0]
ToFmt(F, md, x) == IF ~IsNum(x) THEN x ELSE Rnd(F, md, x.s, x.m, x.e, FALSE).v

\* integer a as a value of integer type t
Wrap(t, a) == LET n == Bits(t)  r == BMod(a, BPow2(n))
              IN IF t = "b" THEN (IF BIsZero(a) THEN B0 ELSE B1) ELSE IF Uns(t) \/ BCmp(r, BPow2(n - 1)) < 0 THEN r ELSE BSub(r, BPow2(n))
InType(t, a) == Wrap(t, a) = a
IntResult(f, P, a) ==
    LET c == [ k \in DOMAIN a |-> Wrap(P, a[k]) ]
    IN CASE f \in {"min", "fmin"} -> [ok |-> TRUE, v |-> IF BCmp(c[1], c[2]) <= 0 THEN c[1] ELSE c[2]]
         [] f \in {"max", "fmax"} -> [ok |-> TRUE, v |-> IF BCmp(c[1], c[2]) >= 0 THEN c[1] ELSE c[2]]
         [] f = "fma" -> LET p == BMul(c[1], c[2])  v == BAdd(p, c[3]) IN [ok |-> InType(P, p) /\ InType(P, v), v |-> v]
         [] OTHER -> [ok |-> FALSE, v |-> B0]
=============================================================================
