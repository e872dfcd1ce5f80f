------------------------------- MODULE Dyadic -------------------------------
(***************************************************************************)
(* The dyadic numbers of the library: four registers <<s, e, m>> holding   *)
(* (-1)^s * m * 2^e, m of B bits, its leading bit set (or m zero).  What   *)
(* an operation may write is given by its distance from the exact result:  *)
(* none for conversions in, negation and scaling; the documented bounds    *)
(* for the quick operations; correct rounding in the mode of the session   *)
(* for the rounded ones and for the conversions out.                       *)
(* Then the numbers made of two words: error-free transformations.         *)
(***************************************************************************)
EXTENDS Exact

Vl(r) == <<IF r[1] = 1 THEN BNeg(r[3]) ELSE r[3], r[2]>>

Normal(B, r) == BIsZero(r[3]) \/ (r[3][1] = 1 /\ BLen(r[3]) = B)
Sx(a, b) == (a[1] + b[1]) % 2

\* m * 2^e to B bits, m > 0; k more bits of tail below
Round(B, md, s, m, e, st) ==
    LET k == BLen(m) - B
        ri == IF k <= 0 THEN <<BShl(m, -k), FALSE>> ELSE RoundInt(md, s, m, k, st)
    IN IF BLen(ri[1]) > B THEN <<s, e + k + 1, BPow2(B - 1)>> ELSE <<s, e + k, ri[1]>>

\* the documented bound of quick_add
AddOK(B, r, a, b) ==
    LET S == VAdd(Vl(a), Vl(b))  D == VSub(Vl(r), S)
    IN IF VIs0(S) THEN BIsZero(r[3]) ELSE VIs0(D) \/ VTop(D) - 1 < VTop(S) - 1 - B + 2
\* quick_mul: towards zero, less than 2 * words units of the last place away
MulOK(B, wc, r, a, b) ==
    LET S == VMul(Vl(a), Vl(b))  D == VSub(VAbs(S), VAbs(Vl(r)))
    IN IF VIs0(S) THEN BIsZero(r[3]) ELSE r[1] = Sx(a, b) /\ VSgn(D) >= 0 /\ VCmpA(D, <<BFromInt(2 * wc), r[2]>>) < 0
PowOK(B, wc, r, a, n) ==
    LET S == VPow(Vl(a), n)  D == VSub(Vl(r), S)
    IN IF VIs0(S) THEN BIsZero(r[3]) ELSE r[1] = (a[1] * n) % 2 /\ VCmpA(D, VScale(<<BMul(BFromInt(4 * n * wc), BAbs(S[1])), S[2]>>, 1 - B)) <= 0

MulR(B, md, a, b) == Round(B, md, Sx(a, b), BMul(a[3], b[3]), a[2] + b[2], FALSE)
DivR(B, md, a, b) == LET k == 2 * B + 2  n == BShl(a[3], k)  q == BDiv(n, b[3]) IN Round(B, md, Sx(a, b), q, a[2] - b[2] - k, ~BIsZero(BSub(n, BMul(q, b[3]))))

\* what a step may write: wc words of ws bits, mode md, registers a and b; e the event
SameVal(r, v) == VEq(Vl(r), v)
Writes(B, wc, md, e, a, b) ==
    LET r == e.r IN
    /\ Normal(B, r)
    /\ CASE e.o = "gen"   -> TRUE
         [] e.o = "from"  -> LET x == Decode(Fmt(e.t), e.w[1]) IN r[1] = x.s /\ SameVal(r, Vd(x))
         [] e.o = "make"  -> r[1] = e.y[1] /\ SameVal(r, Vl(<<e.y[1], e.y[2], e.w[1]>>))
         [] e.o = "neg"   -> r = <<1 - a[1], a[2], a[3]>>
         [] e.o = "scale" -> r = <<a[1], a[2] + e.y[1], a[3]>>
         [] e.o = "add"   -> AddOK(B, r, a, b)
         [] e.o = "sub"   -> AddOK(B, r, a, <<1 - b[1], b[2], b[3]>>)
         [] e.o = "mul"   -> MulOK(B, wc, r, a, b)
         [] e.o = "pow"   -> PowOK(B, wc, r, a, e.y[1])
         [] e.o = "rmul"  -> IF BIsZero(a[3]) \/ BIsZero(b[3]) THEN BIsZero(r[3]) /\ r[1] = Sx(a, b) ELSE r = MulR(B, md, a, b)
         [] e.o = "rdiv"  -> IF BIsZero(a[3]) THEN BIsZero(r[3]) /\ r[1] = Sx(a, b) ELSE r = DivR(B, md, a, b)
         [] OTHER -> FALSE

(*---------------------------- conversions out -----------------------------*)
ToF(F, md, a) == IF BIsZero(a[3]) THEN Exact(Zero(a[1])) ELSE Rnd(F, md, a[1], a[3], a[2], FALSE)
HasFl(m, f) == (m \div f) % 2 = 1
\* tininess may be seen before rounding too
TinyFl(F, a, fl) == IF ~BIsZero(a[3]) /\ HasFl(fl, FInexact) /\ ~HasFl(fl, FUnderflow) /\ VTop(Vl(a)) - 1 < F.emin THEN {fl, fl + FUnderflow} ELSE {fl}
SubsetFl(x, y) == \A f \in {FInvalid, FDivZero, FOverflow, FUnderflow, FInexact} : HasFl(x, f) => HasFl(y, f)
Ranged(fl) == HasFl(fl, FOverflow) \/ HasFl(fl, FUnderflow)
ToOK(F, md, e, a, erange, quiet) ==
    LET w == ToF(F, md, a)  fls == TinyFl(F, a, w.fl)
    IN /\ Canonical(F, e.w[1]) /\ Same(Decode(F, e.w[1]), w.v)
       /\ CASE quiet \/ e.y[1] = 0 -> e.en = 0 /\ (e.o = "gas" => e.fl = 0)
            [] e.o = "gas" -> \E fl \in fls : e.fl = fl /\ e.en = (IF Ranged(fl) THEN erange ELSE 0)
            \* as: overflow and underflow "may" be signalled, and nothing else is; a number that rounds to a subnormal must be
            [] OTHER -> \E fl \in fls : /\ SubsetFl(e.fl, fl) /\ (e.en = 0 \/ (e.en = erange /\ Ranged(fl)))
                                        /\ (HasFl(w.fl, FUnderflow) /\ ~IsNormalNum(F, w.v) => HasFl(e.fl, FUnderflow) /\ e.en = erange)
\* as an integer of B bits: towards zero, and rounded in the mode, with the direction taken
MantOK(B, md, e, a) ==
    LET k == Max2(0, -a[2])  sh == Max2(0, a[2])
        t == BMod(BShl(BShr(a[3], k), sh), BPow2(B))
        ri == RoundInt(md, a[1], a[3], k, FALSE)
        r == IF a[2] >= 0 THEN <<t, FALSE>> ELSE ri
        wr(x) == BMod(IF a[1] = 1 THEN BNeg(x) ELSE x, BPow2(B))
        dir == IF ~r[2] THEN 0 ELSE IF BCmp(r[1], t) > 0 THEN 1 ELSE -1
    IN e.w[1] = wr(t) /\ e.w[2] = wr(r[1]) /\ e.y[1] = dir
\* shifted right n places and back left q, by fields
ShiftOK(B, e, a) ==
    LET n == e.y[1]  q == e.y[2]
        r == IF n < B THEN <<a[1], a[2] + n, BShr(a[3], n)>> ELSE <<a[1], 0, B0>>
        l == IF q < B THEN <<a[1], r[2] - q, BMod(BShl(r[3], q), BPow2(B))>> ELSE <<a[1], 0, B0>>
    IN e.w = <<r, l>> /\ e.y[3] = a[2] + B - 1
Gives(B, md, e, a, erange, quiet) ==
    CASE e.o \in {"as", "gas"} -> ToOK(Fmt(e.t), md, e, a, erange, quiet)
      [] e.o = "mant" -> MantOK(B, md, e, a)
      [] e.o = "shift" -> ShiftOK(B, e, a)
      [] OTHER -> FALSE

(*------------------------------ pairs of words ----------------------------*)
Few(x, n) == IsZero(x) \/ BLen(x.m) - BTz(x.m) <= n
SmallIn(F, e) ==
    LET w == [i \in DOMAIN e.w |-> Decode(F, e.w[i])]
        v(i) == Vd(w[i])  Is(i, x) == IsFin(w[i]) /\ VEq(v(i), x)
        near(i, x) == Same(w[i], (IF VIs0(x) THEN Exact(Zero(0)) ELSE RndSigned(F, NE, x[1], x[2], 0)).v) \/ (VIs0(x) /\ IsZero(w[i]))
        P(i) == VAdd(v(i), v(i + 1))
    IN CASE e.o = "nf"    -> Same(w[2], Rnd(F, NE, w[1].s, w[1].m, w[1].e + e.y[1], FALSE).v)
         [] e.o = "nfcmp" -> e.y[1] = CmpVal(w[1], w[2])
         [] e.o = "sum"   -> LET S == VAdd(v(1), v(2)) IN near(3, S) /\ IsFin(w[4]) /\ VEq(P(3), S)
         [] e.o = "prod"  -> LET S == VMul(v(1), v(2)) IN near(3, S) /\ IsFin(w[4]) /\ VEq(P(3), S)
         [] e.o = "split" -> IsFin(w[2]) /\ IsFin(w[3]) /\ Few(w[2], e.y[1]) /\ Few(w[3], e.y[1]) /\ VEq(P(2), v(1))
         [] e.o = "ddmul" -> IsFin(w[5]) /\ IsFin(w[6]) /\ (LET S == VMul(P(1), P(3)) IN VCmpA(VSub(P(5), S), VScale(S, -100)) <= 0)
         [] e.o = "ddadd" -> IsFin(w[5]) /\ IsFin(w[6]) /\ (LET S == VAdd(P(1), P(3)) IN VCmpA(VSub(P(5), S), VScale(VAdd(VAbs(P(1)), VAbs(P(3))), -102)) <= 0)
         [] e.o = "muladd" -> Same(w[4], Fma(F, NE, w[1], w[2], w[3]).v) \/ Same(w[4], Add(F, NE, Mul(F, NE, w[1], w[2]).v, w[3]).v)
         [] OTHER -> FALSE
Small(e) == SmallIn(Fmt(e.t), e)
SmallOps == {"nf", "nfcmp", "sum", "prod", "split", "ddmul", "ddadd", "muladd"}
=============================================================================
