--------------------------------- MODULE Ext ---------------------------------
(***************************************************************************)
(* The contracts of the helpers in ext/: what each may return for          *)
(* arguments in its domain, rounding to nearest.  Helpers that select or   *)
(* count are exact; those that calculate are given by the exact value of   *)
(* their formula and the rounding of a handful of operations, together     *)
(* with the ends and intervals that hold exactly.                          *)
(***************************************************************************)
EXTENDS Exact

VI(n) == <<BFromInt(n), 0>>
V0 == VI(0)
V1 == VI(1)
VLe(x, y) == VSgn(VSub(x, y)) <= 0
VLt(x, y) == VSgn(VSub(x, y)) < 0
VSum(s) == LET RECURSIVE G(_) G(i) == IF i = 0 THEN V0 ELSE VAdd(G(i - 1), s[i]) IN G(Len(s))
VAbsSum(s) == VSum([i \in DOMAIN s |-> VAbs(s[i])])
\* x modulo y, 0 <= x mod y < y, for y > 0
VMod(x, y) == IF VIs0(x) THEN V0 ELSE LET e == Min2(x[2], y[2]) IN <<BMod(BShl(x[1], x[2] - e), BShl(y[1], y[2] - e)), e>>
\* |x| <= k * u * s, u = 2^-p
In(F, x, k, s) == VCmpA(x, VScale(VMul(VI(k), s), -F.p)) <= 0
\* |r - n/d| <= k * u * s/|d|
Close(F, r, n, d, k, s) == LET f == VSub(VMul(r, d), n) IN VIs0(f) \/ In(F, f, k, s) \/ VCmpA(f, VMul(<<BFromInt(2), F.q>>, d)) <= 0

(*-------------------------------- integers --------------------------------*)
Fits(n, s, x) == IF s THEN BLe(BNeg(BPow2(n - 1)), x) /\ BLt(x, BPow2(n - 1)) ELSE BLe(B0, x) /\ BLt(x, BPow2(n))
CeilTo(x, A) == BMul(BDivC(x, A), A)
FloorTo(x, A) == BMul(BDiv(x, A), A)
IsPow2(x) == x[1] > 0 /\ BLen(x) - 1 = BTz(x)
\* n, s: bits and signedness; w: arguments; y: their small companions, then the result when it is a truth value
IntOK(o, n, s, w, r, y) ==
    CASE o = "abs_diff" -> LET d == BAbs(BSub(w[1], w[2])) IN Fits(n, s, d) => r = d
      [] o = "align"    -> LET A == BPow2(y[1])  c == IF y[2] = 0 THEN CeilTo(w[1], A) ELSE FloorTo(w[1], A) IN Fits(n, s, c) => r = c
      [] o = "ceil_div" -> IF BIsZero(w[2]) THEN y[1] = 1 => r = B0 ELSE r = BDivC(w[1], w[2])            \* w[1] >= 0, w[2] >= 0; y[1]: the safe one
      [] o = "pow2"     -> (y[1] = 0 /\ w[1][1] < 0) \/ (y[2] = 1) = IsPow2(w[1])                          \* the plain one is for values it can negate
      [] o = "sign"     -> r = BFromInt(w[1][1])
      [] o = "step"     -> r = (IF BLt(w[2], w[1]) THEN B0 ELSE B1)
      [] o = "clamp"    -> BLe(w[2], w[3]) => r = BMin(BMax(w[1], w[2]), w[3])
      [] OTHER -> FALSE

(*----------------------------- floating point -----------------------------*)
Between(x, a, b) == (VLe(a, x) /\ VLe(x, b)) \/ (VLe(b, x) /\ VLe(x, a))
\* r against the point g of a circle of the given turn
OnCircle(F, turn, r, g, k, s) == LET d == VMod(VSub(r, g), turn) IN VIs0(d) \/ In(F, d, k, s) \/ In(F, VSub(turn, d), k, s)
\* the shortest ways from c to t: one, or both when they are as long up to rounding
Ways(F, turn, c, t) ==
    LET d == VSub(t, c)  m == VMod(d, turn)  tol == VScale(VMul(VI(4), VAdd(VAbs(d), turn)), -F.p)
        ok(x) == VLe(VScale(VAbs(x), 1), VAdd(turn, VScale(tol, 1)))
    IN {x \in {m, VSub(m, turn), VAdd(m, turn)} : ok(x)}
Floor(x) == IF x[2] >= 0 THEN x ELSE <<BShr(x[1], -x[2]), 0>>

RepeatOK(F, v, len, r) == VLe(V0, r) /\ VLt(r, len) /\ OnCircle(F, len, r, v, 2, len)                        \* len > 0
DeltaOK(F, turn, c, t, r) == VLe(VAbs(VScale(r, 1)), turn) /\ OnCircle(F, turn, r, VSub(t, c), 4, VAdd(VAbs(VSub(t, c)), turn))
LerpAngleOK(F, turn, s, e, t, r) == \E d \in Ways(F, turn, s, e) : In(F, VSub(r, VAdd(s, VMul(d, t))), 16, VAdd(VAbs(s), VMul(VAdd(turn, VAbsSum(<<s, e>>)), VAbs(t))))
MoveOK(F, c, t, m, r) ==                                                                                         \* m >= 0
    LET d == VSub(t, c)
    IN IF VCmpA(d, m) <= 0 THEN VEq(r, t)
       ELSE Between(r, c, t) /\ In(F, VSub(r, VAdd(c, IF VSgn(d) > 0 THEN m ELSE VNeg(m))), 2, VAbsSum(<<c, m>>))
MoveAngleOK(F, turn, c, t, m, r) == \E d \in Ways(F, turn, c, t) :
    LET g == IF VCmpA(d, m) <= 0 THEN d ELSE IF VSgn(d) > 0 THEN m ELSE VNeg(m)
    IN In(F, VSub(r, VAdd(c, g)), 16, VAbsSum(<<c, t, turn>>))
\* t in 0..1 by which x is between a and b
UnlerpOK(F, a, b, x, r) == IF VEq(x, a) THEN VIs0(r) ELSE IF VEq(x, b) THEN VEq(r, V1) ELSE Close(F, r, VSub(x, a), VSub(b, a), 4, VSub(x, a))
NormOK(F, x, lo, hi, r) == IF VLe(x, lo) THEN VIs0(r) ELSE IF VLe(hi, x) THEN VEq(r, V1)                         \* lo < hi
                           ELSE VLe(V0, r) /\ VLe(r, V1) /\ Close(F, r, VSub(x, lo), VSub(hi, lo), 4, VSub(x, lo))
SmoothOK(F, lo, hi, x, r) ==                                                                                      \* lo < hi
    LET n == VSub(x, lo)  d == VSub(hi, lo)
    IN IF VLe(x, lo) THEN VIs0(r) ELSE IF VLe(hi, x) THEN VEq(r, V1)
       ELSE VLe(V0, r) /\ VLe(r, V1) /\ (LET p == VMul(VMul(n, n), VSub(VMul(VI(3), d), VMul(VI(2), n))) IN Close(F, r, p, VMul(d, VMul(d, d)), 14, p))
RemapOK(F, a, b, c, d, x, r) ==
    LET L == VSub(b, a)  g == VMul(VSub(x, a), VSub(d, c))
    IN IF VEq(x, a) THEN VEq(r, c) ELSE Close(F, r, VAdd(VMul(c, L), g), L, 6, VAbsSum(<<VMul(c, L), g>>))
PingOK(F, a, b, r) ==                                                                                             \* b >= 0
    IF VIs0(b) THEN VIs0(r)
    ELSE LET t == VMod(a, VScale(b, 1))  g == IF VLe(t, b) THEN t ELSE VSub(VScale(b, 1), t)
         IN VLe(V0, r) /\ VLe(r, b) /\ In(F, VSub(r, g), 8, VAbsSum(<<a, b>>))
MixOK(F, x, y, a, r) == IF VIs0(a) THEN VEq(r, x) ELSE IF VEq(a, V1) THEN VEq(r, y)
                        ELSE In(F, VSub(r, VAdd(VMul(x, VSub(V1, a)), VMul(y, a))), 6, VAbsSum(<<x, VMul(x, a), VMul(y, a)>>))
CubicOK(F, p, q, s, t, x, r) ==                  \* through q at 0 and s at 1
    LET a0 == VAdd(VSub(VSub(t, s), p), q)  a1 == VSub(VSub(p, q), a0)  a2 == VSub(s, p)  x2 == VMul(x, x)  x3 == VMul(x2, x)
    IN IF VIs0(x) THEN VEq(r, q)
       ELSE In(F, VSub(r, VSum(<<VMul(a0, x3), VMul(a1, x2), VMul(a2, x), q>>)), 32, VMul(VAbsSum(<<p, q, s, t>>), VAbsSum(<<V1, x, x2, x3>>)))

\* F: format; w: the arguments, decoded; d: the result; y: 1 first for the safe one
FloatOK(F, o, w, d, y, pi, half) ==
    LET a(i) == Vd(w[i])  r == Vd(d)  fin == IsFin(d)  turn == VI(360)
        lt(i, j) == CmpVal(w[i], w[j]) < 0
    IN CASE o = "sign"     -> d = (IF IsZero(w[1]) THEN Zero(0) ELSE IF w[1].s = 1 THEN Neg(Norm(F, [Zero(0) EXCEPT !.c = "fin", !.m = B1])) ELSE Norm(F, [Zero(0) EXCEPT !.c = "fin", !.m = B1]))
         [] o = "step"     -> fin /\ VEq(r, IF ~IsNaN(w[1]) /\ ~IsNaN(w[2]) /\ lt(2, 1) THEN V0 ELSE V1)
         [] o = "chgsign"  -> Same(d, [w[1] EXCEPT !.s = w[2].s])
         [] o = "clamp"    -> lt(3, 2) \/ CmpVal(d, IF lt(1, 2) THEN w[2] ELSE IF lt(3, 1) THEN w[3] ELSE w[1]) = 0
         [] o = "saturate" -> fin /\ VEq(r, IF w[1].s = 1 \/ IsZero(w[1]) THEN V0 ELSE IF IsInf(w[1]) \/ VLe(V1, a(1)) THEN V1 ELSE a(1))
         [] o = "approx"   -> LET g == VAbs(VSub(a(1), a(2))) IN IF VLe(g, a(3)) THEN y[1] = 1 ELSE In(F, VSub(g, a(3)), 2, g) \/ y[1] = 0
         [] o = "fract"    -> LET f == VSub(a(1), Floor(a(1))) IN Same([d EXCEPT !.s = 0], RndSigned(F, NE, f[1], f[2], 0).v) /\ (IsZero(d) \/ d.s = 0)
         [] o = "rcp"      -> IF IsInf(w[1]) THEN Same(d, Zero(w[1].s)) ELSE IF IsZero(w[1]) THEN Same(d, Inf(w[1].s)) ELSE fin /\ Close(F, r, V1, a(1), 4, V1)
         [] o = "degrees"  -> fin /\ Close(F, r, VMul(VI(180), a(1)), pi, 4, VMul(VI(180), a(1)))
         [] o = "radians"  -> fin /\ Close(F, r, VMul(pi, a(1)), VI(180), 4, VMul(pi, a(1)))
         [] o = "repeat"   -> fin /\ (IF IsZero(w[2]) THEN VIs0(r) ELSE RepeatOK(F, a(1), a(2), r))
         [] o = "delta"    -> fin /\ DeltaOK(F, turn, a(1), a(2), r)
         [] o = "lerpa"    -> fin /\ LerpAngleOK(F, turn, a(1), a(2), a(3), r)
         [] o = "move"     -> fin /\ MoveOK(F, a(1), a(2), a(3), r)
         [] o = "movea"    -> fin /\ MoveAngleOK(F, turn, a(1), a(2), a(3), r)
         [] o = "unlerp"   -> fin /\ (IF VEq(a(1), a(2)) THEN VIs0(r) ELSE UnlerpOK(F, a(1), a(2), a(3), r))
         [] o = "normalize" -> fin /\ (IF VEq(a(2), a(3)) THEN VIs0(r) ELSE VLt(a(3), a(2)) \/ NormOK(F, a(1), a(2), a(3), r))
         [] o = "remap"    -> fin /\ (IF VEq(a(1), a(2)) THEN VEq(r, a(3)) ELSE RemapOK(F, a(1), a(2), a(3), a(4), a(5), r))
         [] o = "smooth"   -> fin /\ SmoothOK(F, a(1), a(2), a(3), r)
         [] o = "ping"     -> fin /\ PingOK(F, a(1), a(2), r)
         [] o = "mix"      -> fin /\ MixOK(F, a(1), a(2), a(3), r)
         [] o = "cubic"    -> fin /\ CubicOK(F, a(1), a(2), a(3), a(4), a(5), r)
         \* b + (a - b) / 2^(t/h); half: 2^-(t/h), which the library may calculate in double
         [] o = "lsmooth"  -> fin /\ In([F EXCEPT !.p = Min2(F.p, 53)], VSub(r, VAdd(a(2), VMul(VSub(a(1), a(2)), half))), 24, VAbsSum(<<a(1), a(2)>>))
         [] OTHER -> FALSE
=============================================================================
