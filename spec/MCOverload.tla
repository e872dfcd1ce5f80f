----------------------------- MODULE MCOverload -----------------------------
(***************************************************************************)
(* Laws of the conversion rules over all pairs and triples of types.       *)
(***************************************************************************)
EXTENDS Overload, TLC
VARIABLES vT, vU, vV
All == FpT \cup IntT
Init == vT \in All /\ vU \in All /\ vV \in All
Next == UNCHANGED <<vT, vU, vV>>
\* the values of an integer type, as an interval
Lo(t) == IF Uns(t) THEN B0 ELSE BNeg(BPow2(Bits(t) - 1))
Hi(t) == BSub(BPow2(IF Uns(t) THEN Bits(t) ELSE Bits(t) - 1), B1)
Covers(t, u) == BCmp(Lo(t), Lo(u)) <= 0 /\ BCmp(Hi(u), Hi(t)) <= 0
Good ==
    LET PR == Promoted(<<vT, vU>>)  C2 == Common(<<vT, vU>>)
    IN /\ PR = Promoted(<<vU, vT>>) /\ C2 = Common(<<vU, vT>>)                                   \* symmetric
       /\ PR \in FpT /\ Promoted(<<PR, vT>>) = PR                                               \* floating and idempotent
       /\ Promoted(<<vT, vU, vV>>) = Promoted(<<Promoted(<<vT, vU>>), vV>>)
       /\ (IsFp(vT) => Rank(PR) >= Rank(vT)) /\ (IsFp(vU) => Rank(PR) >= Rank(vU))
       /\ (AllInt(<<vT, vU>>) => PR = "d")
       /\ Common(<<vT, vT>>) = vT
       /\ (IsFp(vT) \/ IsFp(vU)) = IsFp(C2)
       /\ AllInt(<<vT, vU>>) => /\ Bits(C2) >= Max2(Bits(vT), Bits(vU))
                                /\ (Uns(vT) = Uns(vU) => Covers(C2, vT) /\ Covers(C2, vU))
                                /\ ((Covers("j", vT) /\ Covers("j", vU) /\ ~(Covers("i", vT) /\ Covers("i", vU)) /\ {vT, vU} \cap {"j", "x"} # {}) => Covers(C2, vT) /\ Covers(C2, vU))
                                /\ Wrap(C2, Hi(vT)) = Hi(vT) \/ ~Covers(C2, vT)
       /\ Wrap(IF AllInt(<<vT>>) THEN vT ELSE "i", B0) = B0
       /\ AllInt(<<vT>>) => /\ Wrap(vT, Lo(vT)) = Lo(vT) /\ Wrap(vT, Hi(vT)) = Hi(vT)
                            /\ vT # "b" => Wrap(vT, BAdd(Hi(vT), B1)) = Lo(vT) /\ Wrap(vT, BSub(Lo(vT), B1)) = Hi(vT)
=============================================================================
