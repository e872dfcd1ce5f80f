------------------------------ MODULE SimdTrace ------------------------------
(***************************************************************************)
(* Recorded programs of the real vector types as behaviours of the machine *)
(* of Simd.tla.  A step the machine does not allow is reported, and the    *)
(* run goes on from what was recorded.                                     *)
(***************************************************************************)
EXTENDS Simd, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES vI, vEnd, vT, vN, vMd, vR, vK, vM
svars == <<vI, vEnd, vT, vN, vMd, vR, vK, vM>>

StartList == LET RECURSIVE G(_) G(i) == IF i > N THEN <<>> ELSE <<i>> \o G(i + Trace[i].len + 1) IN G(1)

TInit == \E j \in DOMAIN StartList : LET s == StartList[j]  h == Trace[s]
            IN /\ vI = s + 1 /\ vEnd = s + h.len /\ vT = h.t /\ vN = h.n /\ vMd = h.m
               /\ vR = h.R /\ vK = h.K /\ vM = h.M

Reject(why) == PrintT("REJECT|" \o ToString(vI) \o "|" \o why \o "|")
Check(ok, why) == IF ok THEN TRUE ELSE Reject(why)

Step(e) ==
    LET T == TypeOf(vT)  st == [R |-> vR, K |-> vK, M |-> vM]
    IN CASE e.k = "died" -> Reject("noreturn") /\ UNCHANGED <<vR, vK, vM>>
         [] e.k = "dump" -> /\ Check(e.R = vR, "register") /\ Check(e.K = vK, "mask") /\ Check(e.M = vM, "memory")
                            /\ vR' = e.R /\ vK' = e.K /\ vM' = e.M
         [] e.o \in RegOps -> /\ Check(RegOK(T, vN, vMd, st, e), "lanes")
                              /\ vR' = [vR EXCEPT ![e.d + 1] = e.r] /\ UNCHANGED <<vK, vM>>
         [] e.o \in MaskOps -> /\ Check(e.r = MaskWant(T, vN, st, e), "mask lanes")
                               /\ vK' = [vK EXCEPT ![e.d + 1] = e.r] /\ UNCHANGED <<vR, vM>>
         [] e.o \in MemOps -> LET M == MemWant(st, e)
                              IN /\ Check(MemRead(M, e.x[1], vN) = e.r, "memory")
                                 /\ vM' = MemWrite(M, e.x[1], e.r) /\ UNCHANGED <<vR, vK>>
         [] OTHER -> Check(ObsOK(T, vN, vMd, st, e), "result") /\ UNCHANGED <<vR, vK, vM>>

TNext == vI <= vEnd /\ vI' = vI + 1 /\ UNCHANGED <<vEnd, vT, vN, vMd>> /\ Step(Trace[vI])
=============================================================================
