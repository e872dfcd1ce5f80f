-------------------------------- MODULE MCExt --------------------------------
(***************************************************************************)
(* The contracts of Ext.tla on words of n bits and on a toy floating-point *)
(* format: the integer contracts determine their results; the helpers'     *)
(* formulas, evaluated operation by operation in the toy format, keep the  *)
(* floating-point contracts for every argument; and the contracts turn     *)
(* away results outside the documented intervals and off the exact ends.   *)
(***************************************************************************)
EXTENDS Ext, TLC, FiniteSets
CONSTANTS Kind, P, E                   \* Kind: "int" (P bits) or "float" (P bits, exponents from -E to E)
VARIABLES a
F == MkFormat(P, 6, 0)
One == Norm(F, [c |-> "fin", s |-> 0, m |-> B1, e |-> 0])
FinVals == {x \in {Decode(F, BFromInt(i)) : i \in 0 .. IPow2(F.n) - 1} : (IsZero(x) /\ x.s = 0) \/ (IsNum(x) /\ BLen(x.m) = P /\ x.e + P - 1 >= -E /\ x.e + P - 1 <= E)}
Vals == IF Kind = "float" THEN FinVals ELSE -IPow2(P - 1) .. IPow2(P) - 1
Init == a = <<>>
Next == Len(a) < 3 /\ \E x \in Vals : a' = Append(a, x)

(*-------------------------------- integers --------------------------------*)
Po(k) == IPow2(k)
Rs == -Po(P - 1) .. Po(P) - 1
G(o, s, w, y) == {r \in Rs : IntOK(o, P, s, [i \in DOMAIN w |-> BFromInt(w[i])], BFromInt(r), y)}
Rep(s, x) == IF s THEN -Po(P - 1) <= x /\ x < Po(P - 1) ELSE 0 <= x /\ x < Po(P)
Absl(x) == IF x < 0 THEN -x ELSE x
IGood == \A s \in BOOLEAN : (\A i \in DOMAIN a : Rep(s, a[i])) => LET x == a[1]  y == a[2]  z == a[3] IN
    /\ G("abs_diff", s, <<x, y>>, <<>>) = IF Rep(s, Absl(x - y)) THEN {Absl(x - y)} ELSE Rs
    /\ \A k \in 0 .. P - 2 : LET A == Po(k)  c == CHOOSE m \in -A * Po(P) .. A * Po(P) : m % A = 0 /\ m >= x /\ m < x + A IN
        /\ G("align", s, <<x>>, <<k, 0>>) = IF Rep(s, c) THEN {c} ELSE Rs
        /\ G("align", s, <<x>>, <<k, 1>>) = {IF c = x THEN x ELSE c - A}
    /\ (x >= 0 /\ y > 0 => G("ceil_div", s, <<x, y>>, <<0>>) = {r \in Rs : r * y >= x /\ (r - 1) * y < x} /\ G("ceil_div", s, <<x, y>>, <<0>>) = {(x \div y) + (IF x % y > 0 THEN 1 ELSE 0)})
    /\ (x >= 0 => G("ceil_div", s, <<x, 0>>, <<1>>) = {0})
    /\ \A b \in {0, 1} : G("pow2", s, <<x>>, <<1, b>>) = IF (\E k \in 0 .. P : x = Po(k)) = (b = 1) THEN Rs ELSE {}
    /\ G("sign", s, <<x>>, <<>>) = {IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1} /\ G("step", s, <<x, y>>, <<>>) = {IF y < x THEN 0 ELSE 1}
    /\ (y <= z => G("clamp", s, <<x, y, z>>, <<>>) = {CHOOSE r \in y .. z : \A q \in y .. z : Absl(r - x) <= Absl(q - x)})

(*----------------------------- floating point -----------------------------*)
p(x, y) == Add(F, NE, x, y).v
m(x, y) == Sub(F, NE, x, y).v
t(x, y) == Mul(F, NE, x, y).v
q(x, y) == Div(F, NE, x, y).v
Lt(x, y) == CmpVal(x, y) < 0
Num(n) == IF n = 0 THEN Zero(0) ELSE Norm(F, [c |-> "fin", s |-> IF n < 0 THEN 1 ELSE 0, m |-> BFromInt(Abs(n)), e |-> 0])
AbsF(x) == [x EXCEPT !.s = 0]
Clamp(x, lo, hi) == IF Lt(x, lo) THEN lo ELSE IF Lt(hi, x) THEN hi ELSE x
FloorF(x) == LET f == Floor(Vd(x)) IN RndSigned(F, NE, f[1], f[2], 0).v
Fract(x) == m(x, FloorF(x))
Fmod(x, y) == LET r == VMod(VAbs(Vd(x)), VAbs(Vd(y))) IN IF VIs0(r) THEN Zero(x.s) ELSE Norm(F, [c |-> "fin", s |-> x.s, m |-> r[1], e |-> r[2]])
Repeat(x, y) == LET r == Fmod(x, y)  s == p(r, y) IN IF IsZero(r) \/ r.s = y.s THEN r ELSE IF CmpVal(s, y) = 0 THEN Zero(0) ELSE s
Turn == Num(6)
Delta(c, g) == LET d == Repeat(m(g, c), Turn) IN IF Lt(Num(3), d) THEN m(d, Turn) ELSE d
Move(c, g, k) == LET d == m(g, c) IN IF ~Lt(k, AbsF(d)) THEN g ELSE p(c, IF Lt(Zero(0), d) THEN k ELSE Neg(k))
MoveA(c, g, k) == Move(c, p(c, Delta(c, g)), k)
Unlerp(x, y, z) == q(m(z, x), m(y, x))
Normal(x, lo, hi) == Clamp(q(m(x, lo), m(hi, lo)), Zero(0), Num(1))
Smooth(lo, hi, x) == LET y == Normal(x, lo, hi) IN t(t(y, y), m(Num(3), t(Num(2), y)))
Mix(x, y, z) == p(t(x, m(Num(1), z)), t(y, z))
Ping(x, y) == AbsF(m(t(t(Fract(q(m(x, y), t(y, Num(2)))), y), Num(2)), y))
Remap(x, y, c, d, z) == p(c, q(t(m(z, x), m(d, c)), m(y, x)))
FOK(o, w, r) == FloatOK(F, o, w, r, <<0>>, V0, V0)
Above(x) == p(x, [c |-> "fin", s |-> 0, m |-> B1, e |-> x.e])
FGood ==
    LET x == a[1]  y == a[2]  z == a[3]  pos(g) == ~IsZero(g) /\ g.s = 0  T == Vd(Turn)  v(g) == Vd(g)
    IN /\ (pos(y) => /\ RepeatOK(F, v(x), v(y), v(Repeat(x, y))) /\ ~RepeatOK(F, v(x), v(y), v(y)) /\ (~IsZero(Repeat(x, y)) => ~RepeatOK(F, v(x), v(y), v(Neg(Repeat(x, y)))))
                     /\ FOK("ping", <<x, y>>, Ping(x, y)) /\ ~FOK("ping", <<x, y>>, Above(y)) /\ ~FOK("ping", <<x, y>>, Neg(y)))
       /\ DeltaOK(F, T, v(x), v(y), v(Delta(x, y))) /\ ~DeltaOK(F, T, v(x), v(y), v(Above(Num(3)))) 
       /\ LerpAngleOK(F, T, v(x), v(y), v(z), v(p(x, t(Delta(x, y), z))))
       /\ (z.s = 0 => /\ FOK("move", <<x, y, z>>, Move(x, y, z)) /\ MoveAngleOK(F, T, v(x), v(y), v(z), v(MoveA(x, y, z)))
                      /\ (LET d == VSub(v(y), v(x)) IN ~VIs0(d) => ~FOK("move", <<x, y, z>>, IF VSgn(d) > 0 THEN Above(y) ELSE Neg(Above(Neg(y))))))
       /\ (CmpVal(x, y) # 0 => FOK("unlerp", <<x, y, z>>, Unlerp(x, y, z)) /\ FOK("unlerp", <<x, y, x>>, Unlerp(x, y, x)) /\ FOK("unlerp", <<x, y, y>>, Unlerp(x, y, y)) /\ ~FOK("unlerp", <<x, y, y>>, Above(One)))
       /\ (Lt(y, z) => LET r == Normal(x, y, z)  s == Smooth(y, z, x) IN
               /\ FOK("normalize", <<x, y, z>>, r) /\ FOK("smooth", <<y, z, x>>, s) /\ FOK("clamp", <<x, y, z>>, Clamp(x, y, z))
               /\ ~FOK("normalize", <<x, y, z>>, Above(One)) /\ ~FOK("smooth", <<y, z, x>>, Above(One)) /\ ~FOK("smooth", <<y, z, z>>, m(One, [One EXCEPT !.m = B1])) /\ ~FOK("clamp", <<x, y, z>>, Above(z)))
       /\ FOK("mix", <<x, y, z>>, Mix(x, y, z)) /\ FOK("mix", <<x, y, One>>, y) /\ ~FOK("mix", <<x, y, One>>, Above(y)) /\ ~FOK("mix", <<x, y, Zero(0)>>, Above(x))
       /\ (CmpVal(x, y) # 0 => \A c \in {Zero(0), Num(3), Num(-5)} : FOK("remap", <<x, y, c, z, y>>, Remap(x, y, c, z, y)) /\ FOK("remap", <<x, y, c, z, One>>, Remap(x, y, c, z, One)) /\ ~FOK("remap", <<x, y, c, z, x>>, Above(c)))
       /\ FOK("fract", <<x>>, Fract(x)) /\ FOK("chgsign", <<x, y>>, [x EXCEPT !.s = y.s])
Good == Len(a) < 3 \/ (IF Kind = "int" THEN IGood ELSE FGood)
=============================================================================
