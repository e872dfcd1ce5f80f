-------------------------------- MODULE Simd --------------------------------
(***************************************************************************)
(* Vector registers.  The machine has four vector registers, four mask     *)
(* registers and a memory, all of one lane type and lane count; each of    *)
(* its operations is defined here lane by lane from the scalar operation   *)
(* on the lane type (IEEE754 for floating-point lanes in the rounding mode *)
(* in force, arithmetic modulo 2^w for integer lanes).                     *)
(*                                                                         *)
(* A lane type is [fp |-> TRUE, F |-> format] or [fp |-> FALSE, w |-> bits,*)
(* sg |-> signed]; a lane of the first is its encoding, of the second its  *)
(* value; lanes are big integers.  TypeOf names the library's lane types;  *)
(* MCSimd.tla takes toy ones.                                              *)
(***************************************************************************)
EXTENDS FpOps, FiniteSets, Bitwise

IntT(w, sg) == [fp |-> FALSE, w |-> w, sg |-> sg]
FpT(F)      == [fp |-> TRUE, F |-> F]
TypeOf(c) == CASE c = "f" -> FpT(F32) [] c = "d" -> FpT(F64)
               [] c = "c" -> IntT(8, TRUE)  [] c = "C" -> IntT(8, FALSE)  [] c = "s" -> IntT(16, TRUE) [] c = "S" -> IntT(16, FALSE)
               [] c = "i" -> IntT(32, TRUE) [] c = "I" -> IntT(32, FALSE) [] c = "x" -> IntT(64, TRUE) [] c = "X" -> IntT(64, FALSE)

BitsOf(T) == IF T.fp THEN T.F.n ELSE T.w

(*------------------------------ integer lanes -----------------------------*)
Raw(w, a) == BMod(a, BPow2(w))                              \* two's complement
Wrap(T, a) == LET u == Raw(T.w, a)
              IN IF T.sg /\ BLen(u) = T.w THEN BSub(u, BPow2(T.w)) ELSE u
MaxOf(T) == BSub(BPow2(IF T.sg THEN T.w - 1 ELSE T.w), B1)
MinOf(T) == IF T.sg THEN BNeg(BPow2(T.w - 1)) ELSE B0

QuotT(a, b) == LET q == BDiv(BAbs(a), BAbs(b)) IN IF a[1] * b[1] < 0 THEN BNeg(q) ELSE q
RemT(a, b)  == BSub(a, BMul(QuotT(a, b), b))

LOCAL Lm(x, i) == IF i + 1 <= Len(x) THEN x[i + 1] ELSE 0
RECURSIVE Build(_, _)                                       \* the number with limbs q[1..k]
Build(q, k) == IF k = 0 THEN B0 ELSE IF q[k] = 0 THEN Build(q, k - 1) ELSE <<1>> \o SubSeq(q, 1, k)
LimbWise(op, a, b) ==                                       \* a, b not negative
    LET n == Max2(Len(a), Len(b)) - 1
        L(i) == CASE op = "and" -> Lm(a, i) & Lm(b, i) [] op = "or" -> Lm(a, i) | Lm(b, i) [] OTHER -> Lm(a, i) ^^ Lm(b, i)
    IN Build([i \in 1 .. n |-> L(i)], n)

Bit(T, op, a, b) == Wrap(T, LimbWise(op, Raw(T.w, a), Raw(T.w, b)))

(*--------------------------- scalar operations ----------------------------*)
D(T, a)  == Decode(T.F, a)
E(T, d)  == Encode(T.F, d)

Lane2(op, T, md, a, b) ==
    IF T.fp THEN E(T, CASE op = "add" -> Add(T.F, md, D(T, a), D(T, b)).v [] op = "sub" -> Sub(T.F, md, D(T, a), D(T, b)).v
                        [] op = "mul" -> Mul(T.F, md, D(T, a), D(T, b)).v [] op = "div" -> Div(T.F, md, D(T, a), D(T, b)).v)
    ELSE CASE op = "add" -> Wrap(T, BAdd(a, b)) [] op = "sub" -> Wrap(T, BSub(a, b)) [] op = "mul" -> Wrap(T, BMul(a, b))
           [] op = "div" -> Wrap(T, QuotT(a, b)) [] op = "mod" -> Wrap(T, RemT(a, b))
           [] op \in {"and", "or", "xor"} -> Bit(T, op, a, b)
           [] op = "shl" -> Wrap(T, BShl(a, BToInt(b))) [] op = "shr" -> Wrap(T, BShr(a, BToInt(b)))

Defined2(op, T, a, b) ==                                    \* C++ gives the scalar operation a value
    T.fp \/ CASE op \in {"div", "mod"} -> ~BIsZero(b) /\ ~(T.sg /\ a = MinOf(T) /\ b = BNeg(B1))
              [] op = "shl" -> b[1] >= 0 /\ BLt(b, BFromInt(T.w)) /\ (T.sg => a[1] >= 0 /\ BLe(BShl(a, BToInt(b)), MaxOf(T)))
              [] op = "shr" -> b[1] >= 0 /\ BLt(b, BFromInt(T.w))
              [] op \in {"add", "sub", "mul"} -> T.sg => LET r == CASE op = "add" -> BAdd(a, b) [] op = "sub" -> BSub(a, b) [] OTHER -> BMul(a, b)
                                                         IN BLe(MinOf(T), r) /\ BLe(r, MaxOf(T))
              [] OTHER -> TRUE

Less(T, a, b) == IF T.fp THEN ~IsNaN(D(T, a)) /\ ~IsNaN(D(T, b)) /\ CmpVal(D(T, a), D(T, b)) < 0 ELSE BLt(a, b)
Eq(T, a, b)   == IF T.fp THEN ~IsNaN(D(T, a)) /\ ~IsNaN(D(T, b)) /\ CmpVal(D(T, a), D(T, b)) = 0 ELSE a = b
Unord(T, a, b) == T.fp /\ (IsNaN(D(T, a)) \/ IsNaN(D(T, b)))
Cmp(op, T, a, b) ==
    CASE op = "eq" -> Eq(T, a, b) [] op = "ne" -> ~Eq(T, a, b) [] op = "lt" -> Less(T, a, b) [] op = "gt" -> Less(T, b, a)
      [] op = "le" -> Less(T, a, b) \/ Eq(T, a, b) [] op = "ge" -> Less(T, b, a) \/ Eq(T, a, b)

Lane1(op, T, md, a) ==
    CASE op = "neg" -> IF T.fp THEN LimbWise("xor", a, BPow2(T.F.n - 1)) ELSE Wrap(T, BNeg(a))
      [] op = "not" -> Wrap(T, BNeg(BAdd(a, B1)))
      [] op = "abs" -> IF T.fp THEN BMod(a, BPow2(T.F.n - 1)) ELSE BAbs(a)
      [] op = "sqrt" -> E(T, Sqrt(T.F, md, D(T, a)).v)
      [] op \in {"floor", "ceil", "trunc", "round"} -> E(T, LET d == D(T, a) IN IF IsNum(d) THEN Nearest(op, T.F, md, d) ELSE d)

Cast(T, U, md, a) ==
    IF T.fp /\ U.fp THEN LET d == D(T, a) IN E(U, IF IsNum(d) THEN Rnd(U.F, md, d.s, d.m, d.e, FALSE).v ELSE d)
    ELSE IF T.fp THEN LET d == D(T, a)
                          i == IF IsNum(d) THEN (IF d.e >= 0 THEN BShl(d.m, d.e) ELSE BShr(d.m, -d.e)) ELSE B0
                      IN Wrap(U, IF d.s = 1 THEN BNeg(i) ELSE i)
    ELSE IF U.fp THEN E(U, RndSigned(U.F, md, a, 0, 0).v)
    ELSE Wrap(U, a)
BitCast(T, U, a) == LET u == IF T.fp THEN a ELSE Raw(T.w, a) IN IF U.fp THEN u ELSE Wrap(U, u)

(*-------------------------------- lanes -----------------------------------*)
\* a computed lane: any NaN stands for any other
LSame(T, want, got) == want = got \/ (T.fp /\ IsNaN(D(T, want)) /\ IsNaN(D(T, got)))
VSame(T, want, got) == Len(want) = Len(got) /\ \A i \in DOMAIN want : LSame(T, want[i], got[i])

Map1(op, T, md, a)    == [i \in DOMAIN a |-> Lane1(op, T, md, a[i])]
Map2(op, T, md, a, b) == [i \in DOMAIN a |-> Lane2(op, T, md, a[i], b[i])]
MapC(op, T, a, b)     == [i \in DOMAIN a |-> B01(Cmp(op, T, a[i], b[i]))]
Select(k, a, b)       == [i \in DOMAIN a |-> IF k[i] = 1 THEN a[i] ELSE b[i]]
Bcast(n, v)           == [i \in 1 .. n |-> v]
Where(op, T, md, k, a, b) == [i \in DOMAIN a |-> IF k[i] = 0 THEN a[i] ELSE IF op = "set" THEN b[i] ELSE Lane2(op, T, md, a[i], b[i])]
FmaL(T, md, a, b, c)  == [i \in DOMAIN a |-> E(T, Fma(T.F, md, D(T, a[i]), D(T, b[i]), D(T, c[i])).v)]

MLog(op, a, b) == [i \in DOMAIN a |-> CASE op = "mand" -> B01(a[i] = 1 /\ b[i] = 1) [] op = "mor" -> B01(a[i] = 1 \/ b[i] = 1)
                                        [] op = "mxor" -> B01(a[i] # b[i]) [] op = "mxnor" -> B01(a[i] = b[i]) [] op = "mnot" -> 1 - a[i]]
Set1(k) == {i \in DOMAIN k : k[i] = 1}
LeastOf(S) == CHOOSE i \in S : \A j \in S : i <= j
GreatestOf(S) == CHOOSE i \in S : \A j \in S : j <= i

MemWrite(M, off, v)     == [i \in DOMAIN M |-> IF i > off /\ i <= off + Len(v) THEN v[i - off] ELSE M[i]]
MemWriteK(M, off, v, k) == [i \in DOMAIN M |-> IF i > off /\ i <= off + Len(v) /\ k[i - off] = 1 THEN v[i - off] ELSE M[i]]
MemRead(M, off, n)      == SubSeq(M, off + 1, off + n)
Gather(M, off, st, n)   == [i \in 1 .. n |-> M[off + (i - 1) * st + 1]]

(*------------------------------ reductions --------------------------------*)
RECURSIVE LeftFold(_, _, _, _), Halving(_, _, _, _), Adjacent(_, _, _, _)
LeftFold(op, T, md, xs) == IF Len(xs) = 1 THEN xs[1] ELSE Lane2(op, T, md, LeftFold(op, T, md, SubSeq(xs, 1, Len(xs) - 1)), xs[Len(xs)])
Halving(op, T, md, xs)  == IF Len(xs) = 1 THEN xs[1] ELSE LET h == Len(xs) \div 2 IN Halving(op, T, md, [i \in 1 .. h |-> Lane2(op, T, md, xs[i], xs[i + h])])
Adjacent(op, T, md, xs) == IF Len(xs) = 1 THEN xs[1] ELSE Adjacent(op, T, md, [i \in 1 .. Len(xs) \div 2 |-> Lane2(op, T, md, xs[2 * i - 1], xs[2 * i])])
RECURSIVE Pairs(_, _, _, _)                \* first half and second half reduced each, then combined
Pairs(op, T, md, xs) == IF Len(xs) = 1 THEN xs[1] ELSE LET h == Len(xs) \div 2 IN Lane2(op, T, md, Pairs(op, T, md, SubSeq(xs, 1, h)), Pairs(op, T, md, SubSeq(xs, h + 1, Len(xs))))
Unit(op, T) == IF T.fp THEN (IF op = "add" THEN B0 ELSE E(T, Norm(T.F, [c |-> "fin", s |-> 0, m |-> B1, e |-> 0]))) ELSE IF op = "add" THEN B0 ELSE B1
IsPow2(n) == \E k \in 0 .. 6 : n = IPow2(k)
\* the orders of association an implementation may choose
Reductions(op, T, md, xs) ==
    {LeftFold(op, T, md, xs), LeftFold(op, T, md, <<Unit(op, T)>> \o xs)} \cup
    (IF IsPow2(Len(xs)) THEN {Halving(op, T, md, xs), Adjacent(op, T, md, xs), Pairs(op, T, md, xs)} ELSE {})
ReduceOK(op, T, md, xs, r) == \E w \in Reductions(op, T, md, xs) : LSame(T, w, r)

\* the least (greatest) of the lanes in S; with a NaN among them, any of them or the identity
Extreme(isMin, T, xs, S, idn, r) ==
    IF S = {} THEN r = idn
    ELSE IF \E i \in S : T.fp /\ IsNaN(D(T, xs[i])) THEN r = idn \/ \E i \in S : r = xs[i]
    ELSE /\ \E i \in S : Eq(T, r, xs[i])
         /\ \A i \in S : IF isMin THEN ~Less(T, xs[i], r) ELSE ~Less(T, r, xs[i])
IdentityMin(T) == IF T.fp THEN E(T, Inf(0)) ELSE MaxOf(T)
IdentityMax(T) == IF T.fp THEN E(T, Inf(1)) ELSE MinOf(T)

(*------------------------------ the machine -------------------------------*)
\* st: [R, K, M]; operation e: its name o, destination d, sources s, integers x, immediate lanes v.
RegOps  == {"gen", "bcast", "load", "setlane", "copylane", "neg", "move", "add", "sub", "mul", "div", "mod", "and", "or", "xor", "shl", "shr",
            "not", "select", "wset", "wadd", "wsub", "wmul", "wdiv", "wbcast", "wload", "min", "max", "abs", "sqrt", "floor", "ceil", "trunc",
            "round", "fma", "exp", "log", "pow", "powk", "gather", "addsv", "subsv", "mulsv", "divsv", "addvs", "subvs", "mulvs", "divvs"}
MaskOps == {"eq", "ne", "lt", "le", "gt", "ge", "mbcast", "mbits", "mand", "mor", "mxor", "mxnor", "mnot", "mmove"}
MemOps  == {"store", "wstore"}
\* moved, selected and loaded lanes keep every bit
ExactOps == {"gen", "bcast", "load", "setlane", "copylane", "move", "select", "wset", "wbcast", "wload", "min", "max", "gather"}
ScalarOf(o) == CASE o \in {"wadd", "addsv", "addvs"} -> "add" [] o \in {"wsub", "subsv", "subvs"} -> "sub" [] o \in {"wmul", "mulsv", "mulvs"} -> "mul"
                 [] o \in {"wdiv", "divsv", "divvs"} -> "div" [] o = "wset" -> "set" [] OTHER -> o

RegWant(T, n, md, st, e) ==
    LET R(i) == st.R[e.s[i] + 1]  K(i) == st.K[e.s[i] + 1]  dst == st.R[e.d + 1]  o == e.o
    IN CASE o = "gen" -> e.v
         [] o = "bcast" -> Bcast(n, e.v[1])
         [] o = "load" -> MemRead(st.M, e.x[1], n)
         [] o = "gather" -> Gather(st.M, e.x[1], e.x[2], n)
         [] o = "setlane" -> [dst EXCEPT ![e.x[1] + 1] = e.v[1]]
         [] o = "copylane" -> [dst EXCEPT ![e.x[1] + 1] = R(1)[e.x[2] + 1]]
         [] o = "move" -> R(1)
         [] o \in {"neg", "not", "abs", "sqrt", "floor", "ceil", "trunc", "round"} -> Map1(o, T, md, R(1))
         [] o \in {"add", "sub", "mul", "div", "mod", "and", "or", "xor", "shl", "shr"} -> Map2(o, T, md, R(1), R(2))
         [] o = "select" -> Select(K(3), R(1), R(2))
         [] o \in {"wset", "wadd", "wsub", "wmul", "wdiv"} -> Where(ScalarOf(o), T, md, K(2), dst, R(1))
         [] o = "wbcast" -> Where("set", T, md, K(2), dst, Bcast(n, e.v[1]))
         [] o = "wload" -> Where("set", T, md, K(2), dst, MemRead(st.M, e.x[1], n))
         [] o = "min" -> [i \in 1 .. n |-> IF Less(T, R(1)[i], R(2)[i]) THEN R(1)[i] ELSE R(2)[i]]
         [] o = "max" -> [i \in 1 .. n |-> IF Less(T, R(1)[i], R(2)[i]) THEN R(2)[i] ELSE R(1)[i]]
         [] o = "fma" -> FmaL(T, md, R(1), R(2), R(3))
         [] o \in {"addsv", "subsv", "mulsv", "divsv"} -> Map2(ScalarOf(o), T, md, Bcast(n, e.v[1]), R(1))
         [] o \in {"addvs", "subvs", "mulvs", "divvs"} -> Map2(ScalarOf(o), T, md, R(1), Bcast(n, e.v[1]))
         [] o \in {"exp", "log", "pow", "powk"} -> SubSeq(e.v, 1, n)

RegOK(T, n, md, st, e) ==
    LET w == RegWant(T, n, md, st, e)
    IN CASE e.o \in ExactOps -> e.r = w
         [] e.o \in {"exp", "log", "pow", "powk"} -> Len(e.r) = n /\ \A i \in 1 .. n : LSame(T, e.v[i], e.r[i]) \/ LSame(T, e.v[n + i], e.r[i])
         [] OTHER -> VSame(T, w, e.r)

MaskWant(T, n, st, e) ==
    LET R(i) == st.R[e.s[i] + 1]  K(i) == st.K[e.s[i] + 1]
    IN CASE e.o \in {"eq", "ne", "lt", "le", "gt", "ge"} -> MapC(e.o, T, R(1), R(2))
         [] e.o = "mbcast" -> Bcast(n, e.x[1])
         [] e.o = "mbits" -> e.x
         [] e.o = "mmove" -> K(1)
         [] OTHER -> MLog(e.o, K(1), K(2))

MemWant(st, e) == IF e.o = "store" THEN MemWrite(st.M, e.x[1], st.R[e.s[1] + 1])
                  ELSE MemWriteK(st.M, e.x[1], st.R[e.s[1] + 1], st.K[e.s[2] + 1])

ObsOK(T, n, md, st, e) ==
    LET R(i) == st.R[e.s[i] + 1]  K(i) == st.K[e.s[i] + 1]  o == e.o
    IN CASE o = "mobs" -> LET S == Set1(K(1))
                          IN /\ e.r = K(1) /\ e.x[7] = 0
                             /\ e.x[1] = B01(Cardinality(S) = n) /\ e.x[2] = B01(S # {}) /\ e.x[3] = B01(S = {}) /\ e.x[4] = Cardinality(S)
                             /\ S # {} => e.x[5] = LeastOf(S) - 1 /\ e.x[6] = GreatestOf(S) - 1
         [] o = "mallany" -> LET S == Set1(K(1)) IN e.r = K(1) /\ e.x[1] = B01(Cardinality(S) = n) /\ e.x[2] = B01(S # {})
         [] o = "reduce" -> ReduceOK("add", T, md, R(1), e.r[1])
         [] o = "reduceop" -> ReduceOK(e.x[1], T, md, R(1), e.r[1])
         [] o = "reducemask" -> ReduceOK(e.x[1], T, md, Select(K(2), R(1), Bcast(n, e.v[1])), e.r[1])
         [] o = "rmin" -> Extreme(TRUE, T, R(1), 1 .. n, IdentityMin(T), e.r[1])
         [] o = "rmax" -> Extreme(FALSE, T, R(1), 1 .. n, IdentityMax(T), e.r[1])
         [] o = "rminm" -> Extreme(TRUE, T, R(1), Set1(K(2)), IdentityMin(T), e.r[1])
         [] o = "rmaxm" -> Extreme(FALSE, T, R(1), Set1(K(2)), IdentityMax(T), e.r[1])
         [] o = "cat" -> e.r = R(1) \o R(2)
         [] o = "mcat" -> e.r = K(1) \o K(2)
         [] o = "cast" -> LET U == TypeOf(e.x[1]) IN VSame(U, [i \in 1 .. n |-> Cast(T, U, md, R(1)[i])], e.r)
         [] o = "bitcast" -> LET U == TypeOf(e.x[1]) IN e.r = [i \in 1 .. n |-> BitCast(T, U, R(1)[i])]
         [] o = "lane0" -> e.r = <<R(1)[1]>>
=============================================================================
