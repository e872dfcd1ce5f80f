------------------------------- MODULE MCWide -------------------------------
(***************************************************************************)
(* The operations of Wide.tla on words of n bits, for small n, against     *)
(* TLC's own integers and against identities that name no width.           *)
(***************************************************************************)
EXTENDS Wide, TLC
CONSTANTS Widths
VARIABLES n, s, a, b
vars == <<n, s, a, b>>
Po(k) == 2 ^ k
Init == n \in Widths /\ s \in BOOLEAN /\ a = -1 /\ b = -1
Next == IF a = -1 THEN a' \in 0 .. Po(n) - 1 /\ UNCHANGED <<n, s, b>> ELSE b = -1 /\ b' \in 0 .. Po(n) - 1 /\ UNCHANGED <<n, s, a>>

T == Ty(n, s)
V(x) == IF s /\ x >= Po(n - 1) THEN x - Po(n) ELSE x
F(x) == BFromInt(x)
W(o, y) == BToInt(Want(T, o, F(a), F(a), F(b), <<F(b)>>, y))
W0(o) == W(o, <<0>>)
Cong(x, y) == (x - y) % Po(n) = 0
A == V(a)
B == V(b)
Absl(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pw(_, _)
Pw(x, k) == IF k = 0 THEN 1 ELSE (x * Pw(x, k - 1)) % Po(n)
\* bit i
Bi(x, i) == (x \div Po(i)) % 2
PopI2(x) == Cardinality({i \in 0 .. n - 1 : Bi(x, i) = 1})
Tops(x, v) == Cardinality({k \in 1 .. n : \A i \in n - k .. n - 1 : Bi(x, i) = v})
Lows(x, v) == Cardinality({k \in 1 .. n : \A i \in 0 .. k - 1 : Bi(x, i) = v})

Values ==
    /\ V(a) = BToInt(Val(T, F(a))) /\ Raw(T, F(V(a))) = F(a)
    /\ \A o \in RegOps \ {"const", "divr", "div", "mod", "convto", "pow", "mask", "setbit", "step"} : W0(o) \in 0 .. Po(n) - 1
    /\ Cong(W0("add"), a + b) /\ Cong(W0("sub"), a - b) /\ Cong(W0("mul"), a * b) /\ Cong(W0("neg"), -a) /\ W0("not") = Po(n) - 1 - a
    /\ Cong(W0("step"), a + 1) /\ Cong(W("step", <<2>>), a - 1) /\ Cong(W0("mulw"), a * b)
    /\ \A i \in 0 .. n - 1 : /\ Bi(W0("and"), i) = Bi(a, i) * Bi(b, i) /\ Bi(W0("xor"), i) = (Bi(a, i) + Bi(b, i)) % 2
                             /\ Bi(W0("or"), i) = Bi(a, i) + Bi(b, i) - Bi(a, i) * Bi(b, i)
                             /\ BitAt(F(a), i) = Bi(a, i) /\ PopI2(W("setbit", <<i>>)) = PopI2(a) + 1 - Bi(a, i) /\ Bi(W("setbit", <<i>>), i) = 1
    /\ b # 0 => LET q == V(W0("div"))  r == V(W0("mod"))
                IN /\ W0("divr") = W0("div")
                   /\ Cong(q * B + r, A) /\ Absl(r) < Absl(B) /\ (r = 0 \/ (r < 0) = (A < 0))
                   /\ (A # -Po(n - 1) \/ B # -1) => q * B + r = A
Shifts == \A k \in 0 .. n - 1 :
    /\ Cong(W("shl", <<k>>), a * Po(k)) /\ V(W("shr", <<k>>)) = A \div Po(k)
    /\ \A i \in 0 .. n - 1 : Bi(W("rotl", <<k>>), (i + k) % n) = Bi(a, i) /\ Bi(W("rotl", <<k - 3 * n>>), (i + k) % n) = Bi(a, i)
    /\ BToInt(Rotl(n, F(W("rotl", <<k>>)), n - k)) = a /\ W("rotr", <<k>>) = W("rotl", <<-k>>) /\ W("rotr", <<-k - n>>) = W("rotl", <<k>>)
    /\ Bi(W("mask", <<0, k>>), n - 1) = 0 /\ PopI2(W("mask", <<0, k>>)) = k /\ Lows(W("mask", <<0, k>>), 1) = k /\ Tops(W("mask", <<1, k>>), 1) = k /\ PopI2(W("mask", <<1, k>>)) = k
    /\ W("mask", <<2, k>>) = Po(n) - 1 - W("mask", <<0, k>>) /\ W("mask", <<3, k>>) = Po(n) - 1 - W("mask", <<1, k>>)
    /\ W("pow", <<0, k>>) = Pw(a, k)
Counted == LET c == Counts(n, F(a))
    IN /\ c[1] = PopI2(a) /\ c[2] = Tops(a, 0) /\ c[3] = Lows(a, 0) /\ c[4] = Tops(a, 1) /\ c[5] = Lows(a, 1) /\ c[12] = n - c[1]
       /\ (IF a = 0 THEN c[6] = 0 ELSE Po(c[6] - 1) <= a /\ a < Po(c[6])) /\ (c[7] = 1) = (\E i \in 0 .. n - 1 : a = Po(i))
       /\ \A j \in {8, 9, 10, 11} : LET want == IF j \in {8, 10} THEN 0 ELSE 1  at(k) == Bi(a, IF j <= 9 THEN n - k ELSE k - 1)
                                    IN IF c[j] = 0 THEN \A k \in 1 .. n : at(k) # want ELSE at(c[j]) = want /\ \A k \in 1 .. c[j] - 1 : at(k) # want
Others == LET e(o, r, w, y) == [o |-> o, r |-> r, w |-> w, y |-> y]  G(o, r, w, y) == Gives(T, n, e(o, r, w, y), F(a), F(a), F(b))
    IN /\ \A c \in {0, 1} : (G("addo", <<>>, <<>>, <<c>>) <=> (a + b) \div Po(n) = c) /\ (G("subo", <<>>, <<>>, <<c>>) <=> (a < b) = (c = 1))
       /\ G("cmp", <<>>, <<>>, <<B01(A = B), B01(A # B), B01(A < B), B01(A <= B), B01(A > B), B01(A >= B)>>)
       /\ \A x \in 0 .. Po(n) - 1 : G("fulmul", <<>>, <<F(x + Po(n) * (((A * B) \div Po(n)) % Po(n)))>>, <<>>) <=> x = (a * b) % Po(n)
       /\ G("mulw", <<>>, <<F(b), F((a * b) \div Po(n))>>, <<>>) /\ G("mulhi", <<>>, <<F((a * b) \div Po(n))>>, <<>>)
       /\ (b # 0 => \A k \in 0 .. 2 : G("divhalf", <<>>, <<F(b), F(a % (b * Po(k)))>>, <<k, 1>>) /\ W("divhalf", <<k>>) = a \div (b * Po(k)))
       /\ \A m \in {n + 2, n - 1} : BToInt(Want(Ty(m, FALSE), "convto", F(0), F(0), F(0), <<F(a)>>, <<n, B01(s)>>)) = V(a) % Po(m) /\ G("conv", <<>>, <<F(V(a) % Po(m))>>, <<m, 1>>)
       /\ LET d == A - B  fits == IF s THEN -Po(n - 1) <= d /\ d < Po(n - 1) ELSE 0 <= d
              rep(fl, en) == Reports(T, [o |-> "subeq", fl |-> fl, en |-> en], F(a), F(b), 34) IN (rep(0, 0) <=> fits) /\ (rep(4, 34) <=> ~fits) /\ ~rep(0, 34)
       /\ LET sub(o, v, q) == Small(n, [o |-> o, w |-> <<F(A), F(B), F(q)>>, y |-> <<B01(s), v>>])  I(x) == IF s THEN -Po(n - 1) <= x /\ x < Po(n - 1) ELSE 0 <= x /\ x < Po(n)
          IN (sub("addv", 0, A + B) <=> I(A + B)) /\ (sub("addv", 1, 0) <=> ~I(A + B)) /\ (sub("subv", 0, A - B) <=> I(A - B)) /\ (sub("subv", 1, 0) <=> ~I(A - B))
       /\ \A c \in {0, 1} : LET t == a + b + c  u == a - b - c
          IN Small(n, [o |-> "adc", w |-> <<F(a), F(b), F(t % Po(n))>>, y |-> <<c, t \div Po(n)>>]) /\ Small(n, [o |-> "sbb", w |-> <<F(a), F(b), F(u % Po(n))>>, y |-> <<c, B01(u < 0)>>])
Good == b = -1 \/ (Values /\ Shifts /\ Counted /\ Others)
=============================================================================
