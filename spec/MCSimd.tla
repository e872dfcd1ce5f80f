------------------------------- MODULE MCSimd -------------------------------
(***************************************************************************)
(* The lane semantics of Simd.tla on toy lane types (integers of W bits,   *)
(* a floating-point format of precision P) against laws stated without it: *)
(* arithmetic of small integers, algebra of masks, and independence of     *)
(* lanes.  One state per choice of two lanes of two vectors and a mask.    *)
(***************************************************************************)
EXTENDS Simd, TLC
CONSTANTS W, P, EW, Few, Kinds              \* Kinds: of lane types to take: "s", "u" integers, "f" floating
VARIABLES ty, a, b, k
vars == <<ty, a, b, k>>

F == MkFormat(P, EW, 0)
TypeK(t) == CASE t = "s" -> IntT(W, TRUE) [] t = "u" -> IntT(W, FALSE) [] OTHER -> FpT(F)
ValuesK(t) == CASE t = "s" -> {BFromInt(i) : i \in -IPow2(W - 1) .. IPow2(W - 1) - 1} [] t = "u" -> {BFromInt(i) : i \in 0 .. IPow2(W) - 1}
                [] OTHER -> {BFromInt(i) : i \in 0 .. IPow2(F.n) - 1}
\* the first lanes range over all values; the others too, unless Few restricts those of floating-point lanes
Second(t) == IF t = "f" /\ Few THEN {BFromInt(i) : i \in {0, 3, IPow2(F.n) - 2}} ELSE ValuesK(t)
Init == ty \in Kinds /\ k = <<>> /\ \E x, u \in ValuesK(ty) : a = <<x>> /\ b = <<u>>
Next == k = <<>> /\ UNCHANGED ty /\ k' \in [1 .. 2 -> {0, 1}] /\ \E y, v \in Second(ty) : a' = Append(a, y) /\ b' = Append(b, v)

T == TypeK(ty)
Rev(v) == [i \in DOMAIN v |-> v[Len(v) + 1 - i]]
Tup(f) == [i \in 1 .. 2 |-> f[i]]
Ops2 == IF T.fp THEN {"add", "sub", "mul", "div"} ELSE {"add", "sub", "mul", "div", "mod", "and", "or", "xor", "shl", "shr"}
DefAll(op, x, y) == \A i \in DOMAIN x : Defined2(op, T, x[i], y[i])
I(x) == BToInt(x)
Cong(x, y) == (x - y) % IPow2(W) = 0
Within(x) == IF ty = "s" THEN -IPow2(W - 1) <= x /\ x < IPow2(W - 1) ELSE 0 <= x /\ x < IPow2(W)

Lanes == \A op \in Ops2, md \in {NE, UP} : DefAll(op, a, b) =>
    LET r == Map2(op, T, md, a, b)
    IN /\ Rev(r) = Map2(op, T, md, Rev(a), Rev(b))                      \* no lane influences another
       /\ <<r[1]>> = Map2(op, T, md, <<a[1]>>, <<b[1]>>)
       /\ Where(op, T, md, k, a, b) = Select(k, r, a)
       /\ Select(k, a, b) = Select(MLog("mnot", k, k), b, a)
       /\ \A i \in 1 .. 2 : k[i] = 0 => Where(op, T, md, k, a, b)[i] = a[i]
Ints == ~T.fp => LET x == a[1]  y == b[1]  V(op) == I(Lane2(op, T, NE, x, y))
    IN /\ \A op \in Ops2 : Defined2(op, T, x, y) => Within(V(op))
       /\ Cong(V("add"), I(x) + I(y)) /\ Cong(V("sub"), I(x) - I(y)) /\ Cong(V("mul"), I(x) * I(y))
       /\ Cong(V("and") + V("or"), I(x) + I(y)) /\ Cong(V("xor"), V("or") - V("and"))
       /\ Cong(V("and"), LET RECURSIVE A(_, _, _) A(p, q, n) == IF n = 0 THEN 0 ELSE 2 * A(p \div 2, q \div 2, n - 1) + (p % 2) * (q % 2) IN A(I(x) % IPow2(W), I(y) % IPow2(W), W))
       /\ Cong(I(Lane1("not", T, NE, x)), -I(x) - 1) /\ Cong(I(Lane1("neg", T, NE, x)), -I(x))
       /\ Defined2("div", T, x, y) => LET q == V("div")  r == V("mod") IN I(x) = q * I(y) + r /\ Abs(r) < Abs(I(y)) /\ (r = 0 \/ (r < 0) = (I(x) < 0))
       /\ Defined2("shl", T, x, y) => Cong(V("shl"), I(x) * IPow2(I(y)))
       /\ Defined2("shr", T, x, y) => LET s == V("shr") * IPow2(I(y)) IN s <= I(x) /\ I(x) - s < IPow2(I(y))
       /\ \A op \in {"add", "mul"} : Cardinality(Reductions(op, T, NE, a \o b)) = 1       \* every order agrees
       /\ I(CHOOSE r \in Reductions("add", T, NE, a) : TRUE) = I(Lane2("add", T, NE, a[1], a[2]))
Order == LET x == a[1]  y == b[1]  C(op) == Cmp(op, T, x, y)
    IN /\ C("ne") = ~C("eq") /\ C("le") = (C("lt") \/ C("eq")) /\ C("ge") = (C("gt") \/ C("eq"))
       /\ IF Unord(T, x, y) THEN ~C("lt") /\ ~C("eq") /\ ~C("gt") ELSE Cardinality({o \in {"lt", "eq", "gt"} : C(o)}) = 1
       /\ C("lt") = Cmp("gt", T, y, x)
       /\ (~T.fp => C("lt") = (I(x) < I(y)))
       /\ (T.fp => Lane1("neg", T, NE, Lane1("neg", T, NE, x)) = x /\ Lane1("abs", T, NE, Lane1("neg", T, NE, x)) = Lane1("abs", T, NE, x) /\ Lane1("neg", T, NE, x) # x)
       /\ \A m \in {TRUE, FALSE} : \E r \in {a[1], a[2], b[1]} : Extreme(m, T, a \o b, 1 .. 3, B0, r)      \* there is always an answer
       /\ (~T.fp => Cardinality({r \in ValuesK(ty) : Extreme(TRUE, T, a \o b, 1 .. 4, B0, r)}) = 1)
Masks == LET q == MapC("lt", T, a, b)  L(o, x, y) == MLog(o, x, y)
    IN /\ L("mnot", L("mand", k, q), k) = L("mor", L("mnot", k, k), L("mnot", q, q))
       /\ L("mxor", k, q) = L("mnot", L("mxnor", k, q), k) /\ L("mxor", k, q) = MapC("ne", IntT(2, FALSE), [i \in 1 .. 2 |-> BFromInt(k[i])], [i \in 1 .. 2 |-> BFromInt(q[i])])
       /\ Select(k, Select(q, a, b), b) = Select(L("mand", k, q), a, b)
Casts ==
    /\ (~T.fp => LET N == IntT(W - 1, T.sg)  Z == IntT(W + 2, TRUE)  x == a[1]
                 IN /\ Cast(Z, T, NE, Cast(T, Z, NE, x)) = x
                    /\ LET n == I(Cast(T, N, NE, x)) IN (n - I(x)) % IPow2(W - 1) = 0 /\ (IF T.sg THEN -IPow2(W - 2) <= n /\ n < IPow2(W - 2) ELSE 0 <= n /\ n < IPow2(W - 1))
                    /\ BitCast(IntT(W, ~T.sg), T, BitCast(T, IntT(W, ~T.sg), x)) = x)
    /\ (T.fp => LET x == D(T, a[1])  U == FpT(MkFormat(P + 2, EW + 1, 0))  Z == IntT(12, TRUE)
                IN /\ LSame(T, Cast(U, T, NE, Cast(T, U, UP, a[1])), a[1])              \* widening is exact
                   /\ IsFin(x) => LET i == Cast(T, Z, NE, a[1])
                                      back == D(FpT(F64), Cast(Z, FpT(F64), NE, i))
                                  IN CmpVal(Nearest("trunc", F64, NE, x), back) = 0)
Memory == LET M == a \o b \o a  off == k[1] + k[2]
          IN /\ MemRead(MemWrite(M, off, b), off, 2) = b
             /\ \A i \in 1 .. 6 : ~(i \in {off + 1, off + 2}) => MemWrite(M, off, b)[i] = M[i]
             /\ MemWriteK(M, off, b, k) = MemWrite(M, off, Select(k, b, MemRead(M, off, 2)))
             /\ Gather(M, off, 2, 2) = <<M[off + 1], M[off + 3]>>
Good == k # <<>> => Lanes /\ Ints /\ Order /\ Masks /\ Casts /\ Memory
=============================================================================
