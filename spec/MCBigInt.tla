------------------------------ MODULE MCBigInt ------------------------------
(* BigInt against itself: run once with the Java overrides and once without, *)
(* on the same recorded operations; both runs must print the same digest.    *)
EXTENDS BigInt, TLC, FiniteSets, Naturals
VARIABLE n
\* a fixed pseudo-random generator, so that both runs see the same numbers
Lcg(s) == (s * 1103 + 12345) % 65536
RECURSIVE Rnd(_, _)
Rnd(s, k) == IF k = 0 THEN <<>> ELSE <<Lcg(s) % 32768>> \o Rnd(Lcg(s), k - 1)
Num(s) == LET k == s % 7
              q == Trim(IF s % 5 = 0 THEN [i \in 1 .. k |-> 32767]
                        ELSE IF s % 11 = 0 THEN [i \in 1 .. k |-> IF i = k THEN 1 ELSE 0]
                        ELSE Rnd(s * 17 % 65536, k))
          IN IF q = <<>> THEN B0 ELSE <<IF s % 3 = 0 THEN -1 ELSE 1>> \o q
Pos(x) == IF BIsZero(x) THEN B1 ELSE BAbs(x)
Ops(s) ==
  LET a == Num(s) b == Num(s * 31 % 8191) c == Num(s * 7 % 1021) k == s % 50 IN
  << BAdd(a, b), BSub(a, b), BMul(a, b), BDiv(a, Pos(b)), BMod(a, Pos(b)), BShl(a, k), BShr(a, k),
     BCmp(a, b), BLen(a), BIsqrt(BAbs(a)), BTz(a), BPowMod(a, k, Pos(c)), BFromInt(k - 25), BToInt(BFromInt(k * 40013)),
     BFromInt(-k * 40013) >>
\* algebraic laws that tie the operators to each other
Laws(s) ==
  LET a == Num(s) b == Num(s * 31 % 8191) p == Pos(b) k == s % 50 r == BIsqrt(BAbs(a)) IN
  /\ BAdd(BMul(BDiv(a, p), p), BMod(a, p)) = a
  /\ BLe(B0, BMod(a, p)) /\ BLt(BMod(a, p), p)
  /\ BSub(BAdd(a, b), b) = a
  /\ BShr(BShl(a, k), k) = a
  /\ BShl(a, k) = BMul(a, BPow2(k))
  /\ BShr(a, k) = BDiv(a, BPow2(k))
  /\ BLe(BMul(r, r), BAbs(a)) /\ BLt(BAbs(a), BMul(BAdd(r, B1), BAdd(r, B1)))
  /\ (BIsZero(a) \/ (BLe(BPow2(BLen(a) - 1), BAbs(a)) /\ BLt(BAbs(a), BPow2(BLen(a)))))
  /\ (BIsZero(a) \/ (BIsZero(BMod(BAbs(a), BPow2(BTz(a)))) /\ ~BIsZero(BMod(BAbs(a), BPow2(BTz(a) + 1)))))
Init == n = 1
Next == n < 400 /\ n' = n + 1 /\ PrintT(<<"op", n, Ops(n)>>)
Spec == Init /\ [][Next]_n
Inv == Laws(n)
=============================================================================
