------------------------------ MODULE WideTrace ------------------------------
(***************************************************************************)
(* Recorded programs of the real wide integers as behaviours of the        *)
(* machine of Wide.tla.  A step the machine does not allow is reported,    *)
(* and the run goes on from what was recorded.                             *)
(***************************************************************************)
EXTENDS Wide, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES vI, vEnd, vT, vW, vR, vQ
StartList == LET RECURSIVE G(_) G(i) == IF i > N THEN <<>> ELSE <<i>> \o G(i + Trace[i].len + 1) IN G(1)
TInit == \E j \in DOMAIN StartList : LET s == StartList[j]  h == Trace[s]
            IN vI = s + 1 /\ vEnd = s + h.len /\ vT = Ty(h.bits, h.sg = 1) /\ vW = h.ws /\ vR = h.R /\ vQ = (h.quiet = 1)

Reject(why) == PrintT("REJECT|" \o ToString(vI) \o "|" \o why \o "|")
Check(ok, why) == IF ok THEN TRUE ELSE Reject(why)
ERANGE == 34

Step(e) ==
    IF e.k = "died" THEN Reject("noreturn") /\ UNCHANGED vR
    ELSE IF e.k = "dump" THEN Check(e.R = vR, "register") /\ vR' = e.R
    ELSE LET d == vR[e.d + 1]  a == vR[e.s + 1]  b == vR[e.x + 1]
         IN /\ Check(IF vQ THEN e.fl = 0 /\ e.en = 0 ELSE Reports(vT, e, a, b, ERANGE), "reports")
            /\ IF e.o \in SmallOps THEN Check(Small(vT.n, e), "result " \o e.o) /\ UNCHANGED vR
               ELSE /\ Check(Gives(vT, vW, e, d, a, b), "result " \o e.o)
                    /\ IF e.r = <<>> THEN UNCHANGED vR
                       ELSE /\ Check(e.o = "gen" \/ e.r = Want(vT, e.o, d, a, b, e.w, e.y), "value " \o e.o)
                            /\ vR' = [vR EXCEPT ![e.d + 1] = e.r]

TNext == vI <= vEnd /\ vI' = vI + 1 /\ UNCHANGED <<vEnd, vT, vW, vQ>> /\ Step(Trace[vI])
=============================================================================
