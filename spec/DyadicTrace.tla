----------------------------- MODULE DyadicTrace -----------------------------
(***************************************************************************)
(* Recorded programs of the real dyadic numbers as behaviours of the       *)
(* machine of Dyadic.tla.  A step the machine does not allow is reported,  *)
(* and the run goes on from what was recorded.                             *)
(***************************************************************************)
EXTENDS Dyadic, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES vI, vEnd, vB, vC, vM, vR, vQ
StartList == LET RECURSIVE G(_) G(i) == IF i > N THEN <<>> ELSE <<i>> \o G(i + Trace[i].len + 1) IN G(1)
TInit == \E j \in DOMAIN StartList : LET s == StartList[j]  h == Trace[s]
            IN vI = s + 1 /\ vEnd = s + h.len /\ vB = h.bits /\ vC = h.bits \div h.ws /\ vM = h.m /\ vR = h.R /\ vQ = (h.quiet = 1)

Reject(why) == PrintT("REJECT|" \o ToString(vI) \o "|" \o why \o "|")
Check(ok, why) == IF ok THEN TRUE ELSE Reject(why)
ERANGE == 34

Step(e) ==
    IF e.k = "died" THEN Reject("noreturn") /\ UNCHANGED vR
    ELSE IF e.o \in SmallOps THEN Check(Small(e), "result " \o e.o) /\ UNCHANGED vR
    ELSE LET a == vR[e.s + 1]  b == vR[e.x + 1]
         IN IF e.r = <<>> THEN Check(Gives(vB, vM, e, a, ERANGE, vQ), "result " \o e.o) /\ UNCHANGED vR
            ELSE Check(Writes(vB, vC, vM, e, a, b), "result " \o e.o) /\ vR' = [vR EXCEPT ![e.d + 1] = e.r]

TNext == vI <= vEnd /\ vI' = vI + 1 /\ UNCHANGED <<vEnd, vB, vC, vM, vQ>> /\ Step(Trace[vI])
=============================================================================
