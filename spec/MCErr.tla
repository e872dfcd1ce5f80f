------------------------------- MODULE MCErr -------------------------------
(***************************************************************************)
(* Laws of the error-reporting contract over the special operands: when a  *)
(* function invents a NaN it is a domain error, when it invents an         *)
(* infinity out of finite operands it is a pole, NaN operands report       *)
(* nothing, a domain or pole error demands its errno and nothing else may  *)
(* set one; flags are sign-symmetric for the odd and even functions.       *)
(***************************************************************************)
EXTENDS Contract, TLC

F == F32
Fin3(s, m, e) == [c |-> "fin", s |-> s, m |-> BFromInt(m), e |-> e]
Vals == {Zero(0), Zero(1), Inf(0), Inf(1), NaN}
        \cup {Fin3(s, p[1], p[2]) : s \in 0 .. 1, p \in {<<1, 0>>, <<1, 1>>, <<3, 0>>, <<1, -1>>, <<5, -1>>, <<1, F.q>>, <<16777215, F.qmax>>, <<8388609, -23>>, <<16777215, -24>>, <<1, 30>>}}
F1 == {"exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "sin", "cos", "tan", "asin", "acos", "atan", "cbrt", "tgamma", "lgamma"}
F2 == {"pow", "atan2", "hypot", "fmod", "remainder", "fdim"}
X1 == {"sqrt", "ilogb", "logb"}

VARIABLES vF, vX, vY
vars == <<vF, vX, vY>>
Init == \/ vF \in F1 \cup X1 /\ vX \in Vals /\ vY = None
        \/ vF \in F2 /\ vX \in Vals /\ vY \in Vals
Next == UNCHANGED vars

Args == IF vF \in F2 THEN <<vX, vY>> ELSE <<vX>>
Res == IF vF \in ApproxFns THEN SpecialValue(vF, Args)
       ELSE IF vF = "ilogb" THEN [v |-> None, fl |-> IF IsNum(vX) THEN 0 ELSE FInvalid]
       ELSE IF vF = "remquo" THEN RemQuo(F, vX, vY) ELSE ExactRes(vF, F, NE, Args, 0)
AnyNaN == \E i \in DOMAIN Args : IsNaN(Args[i])
AllFin == \A i \in DOMAIN Args : IsNum(Args[i]) \/ IsZero(Args[i])
Neg1st(a) == [a EXCEPT ![1] = Neg(a[1])]
Laws ==
    /\ (Res.v.c = "nan" /\ ~AnyNaN) => HasBits(Res.fl, FInvalid)
    /\ (Res.v.c # "none" /\ HasBits(Res.fl, FInvalid)) => Res.v.c = "nan"
    /\ (Res.v.c = "inf" /\ AllFin /\ ~HasBits(Res.fl, FOverflow)) => HasBits(Res.fl, FDivZero)
    /\ HasBits(Res.fl, FDivZero) => Res.v.c = "inf"
    /\ AnyNaN => (Res.fl = 0 \/ vF \in {"ilogb"})
    /\ ErrnoMay(vF, Res.fl, 0) # {}
    /\ (Res.fl % 4 = 0 /\ Res.fl >= 0) => ErrnoMay(vF, Res.fl, 0) = {0} /\ ~ErrnoMust(vF, Res.fl)
    /\ (HasBits(Res.fl, FInvalid) /\ vF \in ErrnoFns) => ErrnoMust(vF, Res.fl) /\ EDOM1 \in ErrnoMay(vF, Res.fl, 0)
    /\ vF \in {"sin", "tan", "asin", "atan", "cbrt", "expm1", "log1p"} \cup {"cos"} =>
         (Res.v.c = "nan") = (SpecialValue(vF, Neg1st(Args)).v.c = "nan") \/ vF = "log1p"
Good == Res.fl < 0 \/ Laws
=============================================================================
