------------------------------ MODULE MCDyadic ------------------------------
(***************************************************************************)
(* The machine of Dyadic.tla with mantissas of B bits, for small B.  The   *)
(* rounded operations against the definition (no other number of B bits    *)
(* between the exact value and the one the mode asks for); the algorithms  *)
(* the library documents for the quick operations, and those for pairs of  *)
(* words on a toy format, against the bounds Dyadic.tla states for them;   *)
(* and that these bounds tell a neighbour apart.                           *)
(***************************************************************************)
EXTENDS Dyadic, TLC, FiniteSets
CONSTANTS B, E, Kind            \* exponents from -E to E; Kind: "dyadic" or "words"
VARIABLES a, b
vars == <<a, b>>
F == MkFormat(B, 6, 0)
Regs(e0, e1) == {<<s, e, BFromInt(m)>> : s \in {0, 1}, e \in e0 .. e1, m \in IPow2(B - 1) .. IPow2(B) - 1}
All == IF Kind = "dyadic" THEN Regs(-E, E) \cup {<<0, 0, B0>>, <<1, 1, B0>>}
       ELSE {x \in {Decode(F, BFromInt(i)) : i \in 0 .. IPow2(F.n) - 1} : IsFin(x) /\ (IsZero(x) \/ (BLen(x.m) + x.e >= -E /\ BLen(x.m) + x.e <= E /\ BLen(x.m) = B))}
Init == a = <<>> /\ b = <<>>
Next == IF a = <<>> THEN a' \in {<<v>> : v \in All} /\ b' = b ELSE b = <<>> /\ a' = a /\ b' \in {<<v>> : v \in All}

\* the algorithms, as the library describes them
Nrm(s, e, m) == IF BIsZero(m) THEN <<s, e, m>> ELSE LET k == B - BLen(m) IN <<s, e - k, BShl(m, k)>>
QuickAdd(x, y) ==
    IF BIsZero(x[3]) THEN y ELSE IF BIsZero(y[3]) THEN x
    ELSE LET e == Max2(x[2], y[2])  d == x[2] - y[2]
             xm == BShr(x[3], e - x[2])  ym == BShr(y[3], e - y[2])
             lost == (d = 1 /\ BIsOdd(y[3])) \/ (d = -1 /\ BIsOdd(x[3]))
         IN IF x[1] = y[1] THEN (LET t == BAdd(xm, ym) IN IF BLen(t) > B THEN <<x[1], e + 1, BShr(t, 1)>> ELSE <<x[1], e, t>>)
            ELSE LET g == BCmp(xm, ym) >= 0  t == BAbs(BSub(xm, ym))  s == IF g THEN x[1] ELSE y[1]
                 IN IF lost /\ BLen(t) < B THEN Nrm(s, e - 1, BSub(BShl(t, 1), B1)) ELSE Nrm(s, e, t)
QuickMul(x, y) == LET t == BShr(BMul(x[3], y[3]), B) IN IF BIsZero(t) THEN <<Sx(x, y), 0, B0>> ELSE Nrm(Sx(x, y), x[2] + y[2] + B, t)
RECURSIVE PowN(_, _)
PowN(x, n) == IF n = 0 THEN <<0, 1 - B, BPow2(B - 1)>> ELSE LET h == PowN(x, n \div 2)  q == QuickMul(h, h) IN IF n % 2 = 1 THEN QuickMul(q, x) ELSE q

\* every number of B bits about as large as r, and r moved by k units in the last place
Near(r) == {<<s, r[2] + k, BFromInt(m)>> : s \in {r[1]}, k \in -1 .. 1, m \in IPow2(B - 1) .. IPow2(B) - 1}
Off(r, k) == LET m == BAdd(r[3], BFromInt(k)) IN IF BIsZero(m) THEN <<r[1], 0, B0>> ELSE Round(B, NE, r[1], m, r[2], FALSE)
Le(u, v) == VSgn(VSub(u, v)) <= 0
\* r is v rounded in mode md; c(x): is the value x at most v?
Rounded(md, r, v) ==
    /\ Normal(B, r)
    /\ LET D(x) == VAbs(VSub(Vl(x), v))  Less(x, y) == VCmpA(D(x), D(y)) < 0
           Side(x) == CASE md = UP -> Le(v, Vl(x)) [] md = DN -> Le(Vl(x), v) [] md = TZ -> VCmpA(Vl(x), v) <= 0 [] OTHER -> TRUE
       IN Side(r) /\ \A x \in Near(r) : Side(x) => ~Less(x, r) /\ (md = NE /\ D(x) # D(r) /\ VCmpA(D(x), D(r)) = 0 => ~BIsOdd(r[3]))
x == a[1]
y == b[1]
nz == ~BIsZero(x[3]) /\ ~BIsZero(y[3])
DGood ==
    /\ AddOK(B, QuickAdd(x, y), x, y)
    /\ MulOK(B, 1, QuickMul(x, y), x, y)
    /\ \A n \in 0 .. 5 : PowOK(B, 1, PowN(x, n), x, n)
    /\ nz => LET q == QuickAdd(x, y)  p == QuickMul(x, y)
             IN /\ (~BIsZero(q[3]) => ~AddOK(B, Off(q, 4), x, y) /\ ~AddOK(B, Off(q, -4), x, y) /\ ~AddOK(B, <<1 - q[1], q[2], q[3]>>, x, y) /\ ~AddOK(B, <<q[1], q[2] + 1, q[3]>>, x, y))
                /\ ~MulOK(B, 1, Off(p, -2), x, y) /\ ~MulOK(B, 1, Off(p, 2), x, y)
    /\ \A md \in Modes : nz =>
        /\ Rounded(md, MulR(B, md, x, y), VMul(Vl(x), Vl(y)))
        \* x / y: compare r * y with x, both made positive multiples of |y|
        /\ LET r == DivR(B, md, x, y)  k == 4 * B  qv == <<BDiv(BShl(BMul(BFromInt(IF Sx(x, y) = 1 THEN -1 ELSE 1), x[3]), k), y[3]), x[2] - y[2] - k>>
               ex == BIsZero(BMod(BShl(x[3], k), y[3]))
           IN Normal(B, r) /\ (ex => Rounded(md, r, qv)) /\ (~ex => Rounded(md, r, <<BAdd(BShl(qv[1], 1), B1), qv[2] - 1>>))
    \* conversions out, in a format of fewer bits: the numbers of the format nearest or next
    /\ LET G == MkFormat(B - 1, 3, 0)  Fins == {d \in {Decode(G, BFromInt(i)) : i \in 0 .. IPow2(G.n) - 1} : IsFin(d) /\ d.s = x[1]}
       IN \A md \in Modes : ~BIsZero(x[3]) => LET w == ToF(G, md, x)  D(d) == VAbs(VSub(Vd(d), Vl(x)))
            Side(d) == CASE md = UP -> Le(Vl(x), Vd(d)) [] md = DN -> Le(Vd(d), Vl(x)) [] md = TZ -> VCmpA(Vd(d), Vl(x)) <= 0 [] OTHER -> TRUE
          IN /\ IsFin(w.v) => Side(w.v) /\ \A d \in Fins : Side(d) => VCmpA(D(w.v), D(d)) <= 0
             /\ HasFl(w.fl, FInexact) = (~IsFin(w.v) \/ ~VEq(Vd(w.v), Vl(x)))
             /\ (IsInf(w.v) => HasFl(w.fl, FOverflow))
    \* as an integer
    /\ \A md \in Modes : y[2] < 0 => LET ok(t, r, d) == MantOK(B, md, [w |-> <<t, r>>, y |-> <<d>>], y)
          W(n) == BMod(n, BPow2(B))  int(n) == <<n, 0>>
          ts == {n \in -IPow2(B) .. IPow2(B) : VCmpA(int(BFromInt(n)), Vl(y)) <= 0 /\ VCmpA(VSub(Vl(y), int(BFromInt(n))), int(B1)) < 0}
          one == BFromInt(IF y[1] = 1 THEN -1 ELSE 1)
          t == BFromInt(CHOOSE n \in ts : TRUE)  frac == VSub(Vl(y), int(t))  half == VCmpA(frac, <<B1, -1>>)
          away == CASE md = NE -> half > 0 \/ (half = 0 /\ BIsOdd(t)) [] md = UP -> y[1] = 0 [] md = DN -> y[1] = 1 [] OTHER -> FALSE
       IN Cardinality(ts) = 1 /\ ok(W(t), W(IF VIs0(frac) \/ ~away THEN t ELSE BAdd(t, one)), IF VIs0(frac) THEN 0 ELSE IF away THEN 1 ELSE -1)
(*------------------------------ pairs of words ----------------------------*)
AddF(p, q) == Add(F, NE, p, q).v
SubF(p, q) == Sub(F, NE, p, q).v
MulF(p, q) == Mul(F, NE, p, q).v
Ev(o, w, k) == SmallIn(F, [o |-> o, t |-> "d", w |-> [i \in DOMAIN w |-> Encode(F, w[i])], y |-> <<k>>])
Split(p) == LET C == AddF([c |-> "fin", s |-> 0, m |-> B1, e |-> (B + 1) \div 2], [c |-> "fin", s |-> 0, m |-> B1, e |-> 0])
                t1 == MulF(C, p)  h == AddF(t1, SubF(p, t1)) IN <<h, SubF(p, h)>>
Wide == (B + 1) \div 2
WGood ==
    LET h == AddF(x, y)  bb == SubF(h, x)  l == AddF(SubF(x, SubF(h, bb)), SubF(y, bb))
        big == IF CmpVal([x EXCEPT !.s = 0], [y EXCEPT !.s = 0]) >= 0 THEN <<x, y>> ELSE <<y, x>>
        fl == SubF(big[2], SubF(h, big[1]))
        sp == Split(x)  sq == Split(y)  ph == MulF(x, y)
        pl == AddF(AddF(AddF(SubF(MulF(sp[1], sq[1]), ph), MulF(sp[1], sq[2])), MulF(sp[2], sq[1])), MulF(sp[2], sq[2]))
    IN /\ Ev("sum", <<x, y, h, l>>, 0) /\ Ev("sum", <<x, y, h, fl>>, 0)
       /\ (~IsZero(x) => Ev("split", <<x, sp[1], sp[2]>>, Wide) /\ (BTz(x.m) = 0 => ~Ev("split", <<x, x, Zero(0)>>, Wide)))
       /\ (~IsZero(x) /\ ~IsZero(y) => Ev("prod", <<x, y, ph, pl>>, 0))
       /\ (~IsZero(l) => ~Ev("sum", <<x, y, h, Neg(l)>>, 0) /\ ~Ev("sum", <<x, y, h, Zero(0)>>, 0) /\ ~Ev("sum", <<x, y, l, h>>, 0))
       /\ Ev("nfcmp", <<x, y>>, CmpVal(x, y)) /\ ~Ev("nfcmp", <<x, y>>, 1 - CmpVal(x, y) * 2)
       /\ Ev("muladd", <<x, y, x, Fma(F, NE, x, y, x).v>>, 0) /\ Ev("muladd", <<x, y, x, AddF(MulF(x, y), x)>>, 0)
Good == b = <<>> \/ (IF Kind = "dyadic" THEN DGood ELSE WGood)
=============================================================================
