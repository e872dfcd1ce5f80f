---------------------------- MODULE MCTranscend ----------------------------
(***************************************************************************)
(* The enclosures of Transcend.tla against functional identities, against  *)
(* the same enclosures computed with 64 bits more, and the constants       *)
(* against independent series.  Each state is one identity at one          *)
(* argument; arguments run over binades, significands and signs.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Laws, Exps, Sigs, Base0, GamP, GamTo
T == INSTANCE Transcend
H == INSTANCE Transcend WITH Base0 <- Base0 + 64, GamP <- GamP + 64, GamTo <- GamTo + 24

VARIABLES vLaw, vE, vS, vDone
vars == <<vLaw, vE, vS, vDone>>

BF(n) == T!BFromInt(n)
Num(s, m, e) == T!Norm(T!F80, [c |-> "fin", s |-> s, m |-> m, e |-> e])
\* a datum with 24 significant bits: 1.sig * 2^e
Arg(sg, k, e) == Num(sg, T!BAdd(T!BPow2(23), BF((k * 40503 * 127 + k * k * 7919) % 8388608)), e - 23)
One1 == Num(0, BF(1), 0)
Mid(en) == [c |-> "fin", s |-> IF en.v[1] < 0 THEN 1 ELSE 0, m |-> T!BAbs(en.v), e |-> -en.sc]
Plus(x, y) == LET t == T!SumExact(x, y) IN IF T!BIsZero(t[1]) THEN T!Zero(0) ELSE [c |-> "fin", s |-> IF t[1][1] < 0 THEN 1 ELSE 0, m |-> T!BAbs(t[1]), e |-> t[2]]
Times(x, y) == IF x.c = "zero" \/ y.c = "zero" THEN T!Zero(0) ELSE [c |-> "fin", s |-> (x.s + y.s) % 2, m |-> T!BMul(x.m, y.m), e |-> x.e + y.e]
\* |x - y| <= 2^-bits * max(|x|, 2^fl)
Close(x, y, bits) ==
    LET d == Plus(x, [y EXCEPT !.s = 1 - y.s])
    IN d.c = "zero" \/ (x.c = "fin" /\ T!BLen(d.m) + d.e <= T!BLen(x.m) + x.e - bits)
CloseAbs(x, y, bits) == LET d == Plus(x, [y EXCEPT !.s = 1 - y.s]) IN d.c = "zero" \/ T!BLen(d.m) + d.e <= -bits
\* two enclosures of one value
Overlap(a, b) ==
    LET S == IF a.sc > b.sc THEN a.sc ELSE b.sc
        d == T!BSub(T!BShl(a.v, S - a.sc), T!BShl(b.v, S - b.sc))
    IN T!BLe(T!BAbs(d), T!BAdd(T!BShl(a.r, S - a.sc), T!BShl(b.r, S - b.sc)))
\* relative width below 2^-bits
Tight(a, bits) == T!BLen(a.r) + bits <= T!BLen(a.v)

Bits == Base0 - 60
Law(l, e, k) ==
    LET p == Arg(0, k, e)          \* positive
        x == Arg(k % 2, k, e)      \* of either sign
        y == Arg((k \div 2) % 2, k + 77, (e * 3) % 5)
        small == e < 0             \* |x| < 1
        both(A, B, b) == Overlap(A, B) /\ Tight(A, b) /\ Tight(B, b)
    IN CASE l = "exp"   -> /\ both(T!EncExp(x), H!EncExp(x), 110)
                           /\ Close(Times(Mid(T!EncExp(x)), Mid(T!EncExp([x EXCEPT !.s = 1 - x.s]))), One1, Bits)
                           /\ Close(Mid(T!EncExp(Plus(x, y))), Times(Mid(T!EncExp(x)), Mid(T!EncExp(y))), Bits)
         [] l = "exp2"  -> /\ both(T!EncExp2(x), H!EncExp2(x), 110)
                           /\ Close(Mid(T!EncExp2(Plus(x, One1))), Times(Mid(T!EncExp2(x)), Num(0, BF(1), 1)), Bits)
                           /\ Close(Mid(T!EncExp2(x)), Mid(T!EncPow(Num(0, BF(1), 1), x)), Bits)
         [] l = "expm1" -> /\ both(T!EncExpm1(x), H!EncExpm1(x), 110)
                           /\ \E b \in {Plus(Mid(T!EncExpm1(x)), One1)} : CloseAbs(b, Mid(T!EncExp(x)), Bits - 40) \/ Close(b, Mid(T!EncExp(x)), Bits - 40)
                           /\ (small => Close(Mid(T!EncLog1p(Mid(T!EncExpm1(x)))), x, Bits - 30))
         [] l = "log"   -> /\ both(T!EncLn(p), H!EncLn(p), 100)
                           /\ Close(Mid(T!EncExp(Mid(T!EncLn(p)))), p, Bits)
                           /\ CloseAbs(Mid(T!EncLn(Times(p, [y EXCEPT !.s = 0]))), Plus(Mid(T!EncLn(p)), Mid(T!EncLn([y EXCEPT !.s = 0]))), Bits)
         [] l = "log2"  -> /\ both(T!EncLog2(p), H!EncLog2(p), 100)
                           /\ Close(Mid(T!EncExp2(Mid(T!EncLog2(p)))), p, Bits)
                           /\ Close(Times(Mid(T!EncLog2(p)), Mid(T!EncLn(Num(0, BF(2), 0)))), Mid(T!EncLn(p)), Bits)
         [] l = "log10" -> /\ both(T!EncLog10(p), H!EncLog10(p), 100)
                           /\ Close(Times(Mid(T!EncLog10(p)), Mid(T!EncLn(Num(0, BF(10), 0)))), Mid(T!EncLn(p)), Bits)
         [] l = "log1p" -> \/ (x.s = 1 /\ ~small)
                           \/ /\ both(T!EncLog1p(x), H!EncLog1p(x), 100)
                              /\ Close(Mid(T!EncExpm1(Mid(T!EncLog1p(x)))), x, Bits - 30)
         [] l = "sincos" -> LET s == T!EncSin(x)  c == T!EncCos(x)  t == T!EncTan(x)  u == Times(x, Num(0, BF(1), 1))
                            IN /\ both(s, H!EncSin(x), 100) /\ both(c, H!EncCos(x), 100) /\ both(t, H!EncTan(x), 90)
                               /\ CloseAbs(Plus(Times(Mid(s), Mid(s)), Times(Mid(c), Mid(c))), One1, Bits)
                               /\ Close(Times(Mid(t), Mid(c)), Mid(s), Bits - 30)
                               /\ CloseAbs(Mid(T!EncSin(u)), Times(Times(Mid(s), Mid(c)), Num(0, BF(1), 1)), Bits)
                               /\ CloseAbs(Mid(T!EncCos(Plus(x, y))), Plus(Times(Mid(c), Mid(T!EncCos(y))), [Times(Mid(s), Mid(T!EncSin(y))) EXCEPT !.s = 1 - @]), Bits)
         [] l = "atan"  -> /\ both(T!EncAtan(x), H!EncAtan(x), 100)
                           /\ (e < 60 => Close(Mid(T!EncTan(Mid(T!EncAtan(x)))), x, Bits - 70))
                           /\ CloseAbs(Plus(Mid(T!EncAtan(p)), Mid(T!EncAtan2(One1, p))), Mid(T!EncAcos(T!Zero(0))), Bits - 20)
         [] l = "asin"  -> ~small \/
                           /\ both(T!EncAsin(x), H!EncAsin(x), 100) /\ both(T!EncAcos(x), H!EncAcos(x), 80)
                           /\ Close(Mid(T!EncSin(Mid(T!EncAsin(x)))), x, Bits - 40)
                           /\ CloseAbs(Mid(T!EncCos(Mid(T!EncAcos(x)))), x, Bits - 40)
         [] l = "atan2" -> LET a == T!EncAtan2(x, y)
                           IN /\ both(a, H!EncAtan2(x, y), 100)
                              \* the angle of (y, x) has that sine and cosine
                              /\ LET s == Mid(T!EncSin(Mid(a)))  c == Mid(T!EncCos(Mid(a)))
                                     h == Mid(T!EncHypot(x, y, T!Zero(0)))
                                 IN CloseAbs(Times(s, h), x, IF e < -60 THEN 120 ELSE 60 - e) /\ (e < 60 => CloseAbs(Times(c, h), y, 50 - (IF e > 0 THEN e ELSE 0)))
         [] l = "cbrt"  -> LET c == T!EncCbrt(x) IN both(c, H!EncCbrt(x), 110) /\ Close(Times(Mid(c), Times(Mid(c), Mid(c))), x, Bits)
         [] l = "hypot" -> LET h == T!EncHypot(x, y, T!Zero(0))  g == T!EncHypot(x, y, p)
                           IN /\ both(h, H!EncHypot(x, y, T!Zero(0)), 110) /\ both(g, H!EncHypot(x, y, p), 110)
                              /\ Close(Times(Mid(h), Mid(h)), Plus(Times(x, x), Times(y, y)), Bits)
                              /\ Close(Times(Mid(g), Mid(g)), Plus(Times(p, p), Plus(Times(x, x), Times(y, y))), Bits)
         [] l = "pow"   -> LET a == T!EncPow(p, y)
                           IN /\ both(a, H!EncPow(p, y), 100)
                              /\ Close(Mid(T!EncPow(p, Num(0, BF(2), 0))), Times(p, p), Bits)
                              /\ Close(Mid(T!EncPow(p, Num(0, BF(3), 0))), Times(p, Times(p, p)), Bits)
                              /\ Close(Times(Mid(T!EncPow(p, Num(0, BF(1), -1))), Mid(T!EncPow(p, Num(0, BF(1), -1)))), p, Bits)
                              /\ Close(Times(Mid(T!EncPow(p, y)), Mid(T!EncPow(p, [y EXCEPT !.s = 1 - @]))), One1, Bits - 20)
         [] l = "gamma" -> LET z == IF e > 6 THEN Arg(k % 2, k, e % 7) ELSE x
                               g == T!EncGamma(z)  g1 == T!EncGamma(Plus(z, One1))
                           IN (z.e >= 0 \/ e < -50) \/
                              /\ both(g, H!EncGamma(z), 80)
                              /\ Close(Mid(g1), Times(z, Mid(g)), 80)
                              /\ (z.s = 0 => CloseAbs(Mid(T!EncExp(Mid(T!EncLGamma(z)))), Mid(g), 0) \/ Close(Mid(T!EncExp(Mid(T!EncLGamma(z)))), Mid(g), 80))
                              /\ Overlap(T!EncLGamma(z), H!EncLGamma(z))
         [] l = "const" -> /\ CloseAbs(Mid(T!Enc(T!PiMachin(700 + k), 700 + k)), Mid(T!Enc(T!Pi(700 + k), 700 + k)), 690)
                           /\ CloseAbs(Mid(T!Enc(T!Ln2(200 + k), 200 + k)), Mid(T!Enc(T!LnAt(Num(0, BF(2), 0), 200 + k), 200 + k)), 160)
                           /\ CloseAbs(Mid(T!Enc(T!Ln10(200 + k), 200 + k)), Mid(T!Enc(T!LnAt(Num(0, BF(10), 0), 200 + k), 200 + k)), 160)

Init == vLaw \in Laws /\ vE \in Exps /\ vS = 0 /\ vDone = FALSE
Next == ~vDone /\ vDone' = TRUE /\ vS' \in Sigs /\ UNCHANGED <<vLaw, vE>>
Good == ~vDone \/ Law(vLaw, vE - 200, vS)      \* (configuration files have no negative numbers)
=============================================================================
