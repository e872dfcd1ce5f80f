-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* The fixed-width integers of the library: a machine of registers that    *)
(* hold words of N bits, read as natural numbers or in two's complement.   *)
(* A register is the natural number of its bits; an operation computes on  *)
(* the numbers the bits stand for and keeps the result modulo 2^N.         *)
(***************************************************************************)
EXTENDS BigInt, Bitwise, FiniteSets

Ty(n, s) == [n |-> n, s |-> s]                    \* bits, signed?
Mod2(n, v) == BMod(v, BPow2(n))
Val(T, r) == IF T.s /\ BLe(BPow2(T.n - 1), r) THEN BSub(r, BPow2(T.n)) ELSE r
Raw(T, v) == Mod2(T.n, v)
InRange(T, v) == Val(T, Raw(T, v)) = v
Ones(n) == BSub(BPow2(n), B1)
BitAt(r, i) == BToInt(BField(r, i, 1))
B01(b) == IF b THEN 1 ELSE 0

(*------------------------------- numbers ---------------------------------*)
\* quotient and remainder: towards zero, the remainder has the sign of the dividend
QuoV(a, b) == LET q == BDiv(BAbs(a), BAbs(b)) IN IF (a[1] < 0) # (b[1] < 0) THEN BNeg(q) ELSE q
RemV(a, b) == LET r == BMod(BAbs(a), BAbs(b)) IN IF a[1] < 0 THEN BNeg(r) ELSE r

\* bitwise operations, 15 bits at a time
Limb(r, i) == IF i + 1 <= Len(r) THEN r[i + 1] ELSE 0
RECURSIVE Build(_, _)                                       \* the number with limbs q[1..k]
Build(q, k) == IF k = 0 THEN B0 ELSE IF q[k] = 0 THEN Build(q, k - 1) ELSE <<1>> \o SubSeq(q, 1, k)
Bits(op, a, b) == LET n == (IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) - 1
                      L(i) == CASE op = "and" -> Limb(a, i) & Limb(b, i) [] op = "or" -> Limb(a, i) | Limb(b, i) [] OTHER -> Limb(a, i) ^^ Limb(b, i)
                  IN Build([i \in 1 .. n |-> L(i)], n)

Rotl(n, r, k) == LET m == k % n IN Mod2(n, BAdd(BShl(r, m), BShr(r, n - m)))

(*-------------------------------- counts ---------------------------------*)
RECURSIVE PopI(_)
PopI(x) == IF x = 0 THEN 0 ELSE (x % 2) + PopI(x \div 2)
RECURSIVE Pop(_, _)
Pop(r, i) == IF i > Len(r) THEN 0 ELSE PopI(r[i]) + Pop(r, i + 1)
PopCount(r) == Pop(r, 2)
Clz(n, r) == n - BLen(r)
Ctz(n, r) == IF BIsZero(r) THEN n ELSE BTz(r)
Compl(n, r) == BSub(Ones(n), r)
\* positions count from one; zero means there is none
First(n, k) == IF k = n THEN 0 ELSE k + 1
Counts(n, r) == << PopCount(r), Clz(n, r), Ctz(n, r), Clz(n, Compl(n, r)), Ctz(n, Compl(n, r)), BLen(r), B01(PopCount(r) = 1),
                   First(n, Clz(n, Compl(n, r))), First(n, Clz(n, r)), First(n, Ctz(n, Compl(n, r))), First(n, Ctz(n, r)), n - PopCount(r) >>
\* masks: of the trailing and leading ones, of the trailing and leading zeros
Mask(n, q, c) == CASE q = 0 -> Ones(c) [] q = 1 -> BSub(Ones(n), Ones(n - c)) [] q = 2 -> BSub(Ones(n), Ones(c)) [] OTHER -> Ones(n - c)
Named(T, i) == CASE i = 0 -> B0 [] i = 1 -> B1 [] i = 2 -> Ones(T.n) [] i = 3 -> IF T.s THEN BPow2(T.n - 1) ELSE B0 [] OTHER -> Ones(IF T.s THEN T.n - 1 ELSE T.n)
Order(u, v) == LET c == BCmp(u, v) IN << B01(c = 0), B01(c # 0), B01(c < 0), B01(c <= 0), B01(c > 0), B01(c >= 0) >>

\* x^(hi 2^30 + lo) in n bits
PowN(n, x, hi, lo) == LET m == BPow2(n)  P(y, k) == BPowMod(y, k, m) IN BMod(BMul(P(P(P(x, 32768), 32768), hi), P(x, lo)), m)

(*------------------------------ operations -------------------------------*)
\* the bits an operation on the bits a and b leaves in its destination, which held d; v and y are its further arguments
Want(T, o, d, a, b, w, y) ==
    LET n == T.n  A == Val(T, a)  B == Val(T, b)
    IN CASE o = "const" -> Named(T, y[1])
         [] o \in {"add", "addo"} -> Raw(T, BAdd(A, B))
         [] o \in {"sub", "subo", "subeq"} -> Raw(T, BSub(A, B))
         [] o = "mul" -> Raw(T, BMul(A, B))
         [] o = "div" -> Raw(T, QuoV(A, B))
         [] o = "mod" -> Raw(T, RemV(A, B))
         [] o = "divr" -> IF BIsZero(B) THEN a ELSE Raw(T, QuoV(A, B))
         [] o \in {"and", "or", "xor"} -> Bits(o, a, b)
         [] o = "not" -> Raw(T, BSub(BNeg(A), B1))
         [] o = "neg" -> Raw(T, BNeg(A))
         [] o = "step" -> Raw(T, BAdd(Val(T, d), IF y[1] <= 1 THEN B1 ELSE BNeg(B1)))
         [] o = "shl" -> Raw(T, BShl(A, y[1]))
         [] o = "shr" -> Raw(T, BShr(A, y[1]))
         [] o = "rotl" -> Rotl(n, a, y[1])
         [] o = "rotr" -> Rotl(n, a, n - (y[1] % n))
         [] o = "setbit" -> IF BitAt(d, y[1]) = 1 THEN d ELSE BAdd(d, BPow2(y[1]))
         [] o = "mulw" -> Raw(T, BMul(a, w[1]))
         [] o = "divhalf" -> IF BIsZero(w[1]) THEN a ELSE BDiv(a, BShl(w[1], y[1]))
         [] o = "pow" -> PowN(n, a, y[1], y[2])
         [] o = "mask" -> Mask(n, y[1], y[2])
         [] o = "fromint" -> Raw(T, w[1])
         [] o = "convto" -> Raw(T, Val(Ty(y[1], y[2] = 1), w[1]))
RegOps == {"const", "add", "addo", "sub", "subo", "subeq", "mul", "div", "mod", "divr", "and", "or", "xor", "not", "neg", "step", "shl", "shr",
           "rotl", "rotr", "setbit", "mulw", "divhalf", "pow", "mask", "fromint", "convto"}

\* what an operation returns besides: e is the recorded event, ws the bits of a word
Gives(T, ws, e, d, a, b) ==
    LET o == e.o  n == T.n  A == Val(T, a)  B == Val(T, b)  w == e.w  y == e.y
    IN CASE o = "divr" -> IF BIsZero(B) THEN y = <<0>> /\ w = <<>> ELSE y = <<1>> /\ w = <<Raw(T, RemV(A, B))>>
         [] o = "step" -> w[1] = IF y[1] \in {0, 2} THEN e.r ELSE d
         [] o = "addo" -> y[1] = B01(BLe(BPow2(n), BAdd(a, b)))
         [] o = "subo" -> y[1] = B01(BLt(a, b))
         [] o = "mulw" -> w[2] = BShr(BMul(a, w[1]), n)
         [] o = "divhalf" -> IF BIsZero(w[1]) THEN y[2] = 0 /\ Len(w) = 1 ELSE y[2] = 1 /\ w[2] = BMod(a, BShl(w[1], y[1]))
         [] o = "conv" -> w[1] = Mod2(y[1], A)
         [] o = "toint" -> w[1] = Mod2(y[1], A)
         [] o = "fulmul" -> w[1] = Mod2(2 * n, BMul(A, B))
         [] o = "mulhi" -> LET t == BSub(BShr(BMul(a, b), n), w[1]) IN BLe(B0, t) /\ BLe(t, BFromInt(n \div ws - 1))
         [] o = "cmp" -> y = Order(A, B)
         [] o = "cmpi" -> y = Order(A, Val(T, Raw(T, w[1])))
         [] o = "getbit" -> y[2] = BitAt(a, y[1])
         [] o = "what" -> y = <<B01(BIsZero(a)), B01(~BIsZero(a)), B01(A[1] < 0)>>
         [] o = "count" -> y = Counts(n, a)
         [] OTHER -> TRUE

\* the same for the integers of the language
Small(n, e) ==
    LET o == e.o  w == e.w  y == e.y  two == BPow2(n)
    IN CASE o = "count1" -> LET c == Counts(n, w[1]) IN \A i \in 1 .. 7 : y[i] = c[i] \/ (i = 7 /\ y[i] = -1)
         [] o = "rotl1" -> w[2] = Rotl(n, w[1], y[1])
         [] o = "rotr1" -> w[2] = Rotl(n, w[1], n - (y[1] % n))
         [] o = "adc" -> BAdd(w[3], IF y[2] = 1 THEN two ELSE B0) = BAdd(BAdd(w[1], w[2]), BFromInt(y[1])) /\ y[2] \in {0, 1}
         [] o = "sbb" -> BSub(w[3], IF y[2] = 1 THEN two ELSE B0) = BSub(BSub(w[1], w[2]), BFromInt(y[1])) /\ y[2] \in {0, 1}
         [] o \in {"addv", "subv"} -> LET v == (IF o = "addv" THEN BAdd(w[1], w[2]) ELSE BSub(w[1], w[2]))  T == Ty(n, y[1] = 1)
                                      IN y[2] = B01(~InRange(T, v)) /\ (y[2] = 0 => w[3] = v)
SmallOps == {"count1", "rotl1", "rotr1", "adc", "sbb", "addv", "subv"}

\* only a subtraction in place whose difference does not fit reports, and it reports that it overflowed
OVERFLOW == {4, 4 + 16}
Reports(T, e, a, b, erange) ==
    IF e.o = "subeq" /\ ~InRange(T, BSub(Val(T, a), Val(T, b))) THEN e.fl \in OVERFLOW /\ e.en = erange ELSE e.fl = 0 /\ e.en = 0
=============================================================================
