-------------------------------- MODULE Lerp --------------------------------
(***************************************************************************)
(* Linear interpolation: a walk from parameter to parameter between two    *)
(* fixed ends.  A point may be visited if it keeps the promises made for   *)
(* single points, and the step from one to the next if it goes the way     *)
(* the ends prescribe.                                                     *)
(***************************************************************************)
EXTENDS FpOps

LEq(x, y) == IsFin(x) /\ IsFin(y) /\ CmpVal(x, y) = 0
LLe(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ CmpVal(x, y) <= 0
LOne == [c |-> "fin", s |-> 0, m |-> B1, e |-> 0]
In01(t) == LLe(Zero(0), t) /\ LLe(t, LOne)

Ends(a, b, t, r) == /\ IsZero(t) => LEq(r, a)
                    /\ LEq(t, LOne) => LEq(r, b)
                    /\ LEq(a, b) => LEq(r, a)
Bounded(a, b, t, r) == In01(t) => IsFin(r) /\ ((LLe(a, r) /\ LLe(r, b)) \/ (LLe(b, r) /\ LLe(r, a)))

\* exact sum of data, <<n, e>>
LSum(x, y) == IF IsZero(x) THEN <<SM(y), y.e>> ELSE IF IsZero(y) THEN <<SM(x), x.e>> ELSE SumExact(x, y)
LMulE(x, y) == IF IsZero(x) \/ IsZero(y) THEN Zero(0) ELSE [c |-> "fin", s |-> (x.s + y.s) % 2, m |-> BMul(x.m, y.m), e |-> x.e + y.e]
Dat(t) == IF BIsZero(t[1]) THEN Zero(0) ELSE [c |-> "fin", s |-> B01(t[1][1] < 0), m |-> BAbs(t[1]), e |-> t[2]]
Top(x) == IF IsZero(x) THEN -1000000 ELSE ExpOf(x)
\* within 8 units in the last place of the largest intermediate quantity, whenever none of them leaves the range
Near(F, a, b, t, r) ==
    LET ta == LMulE(t, a)  tb == LMulE(t, b)
        x == Dat(LSum(a, Dat(LSum(tb, [ta EXCEPT !.s = 1 - ta.s]))))          \* a + tb - ta
        top == Max2(Max2(Top(a), Top(b)), Max2(Top(ta), Top(tb)))
        d == Dat(LSum(x, [r EXCEPT !.s = 1 - r.s]))
    IN (top < F.emax - 1 /\ Top(t) < F.emax - 1) => IsFin(r) /\ (IsZero(d) \/ CmpMag(d.m, d.e, B1, 3 + Max2(top - F.p + 1, F.q)) <= 0)

PointOK(F, a, b, t, r) == ~IsNaN(r) /\ Ends(a, b, t, r) /\ Bounded(a, b, t, r) /\ Near(F, a, b, t, r)
StepOK(a, b, t1, r1, t2, r2) ==
    LET fwd(s1, q1, s2, q2) == LLe(s1, s2) => /\ LLe(a, b) => LLe(q1, q2)
                                              /\ LLe(b, a) => LLe(q2, q1)
    IN fwd(t1, r1, t2, r2) /\ fwd(t2, r2, t1, r1)
=============================================================================
