------------------------------ MODULE ExtTrace ------------------------------
(***************************************************************************)
(* Recorded calls of the real ext helpers judged by the contracts of       *)
(* Ext.tla.                                                                *)
(***************************************************************************)
EXTENDS Ext, TLC, Json, IOUtils
Tr == INSTANCE Transcend WITH Base0 <- 176, GamP <- 256, GamTo <- 64

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES vI, vEnd
StartList == LET RECURSIVE G(_) G(i) == IF i > N THEN <<>> ELSE <<i>> \o G(i + Trace[i].len + 1) IN G(1)
TInit == \E j \in DOMAIN StartList : vI = StartList[j] + 1 /\ vEnd = StartList[j] + Trace[StartList[j]].len

Reject(why) == PrintT("REJECT|" \o ToString(vI) \o "|" \o why \o "|")
Check(ok, why) == IF ok THEN TRUE ELSE Reject(why)
PiV == <<Tr!Pi(200), -200>>
\* 2^-(t/h)
HalfV(F, t, h) == IF IsZero(t) THEN V1 ELSE LET q == Tr!EncExp2(RndQuot(F, NE, 1, t.m, h.m, t.e - h.e).v) IN <<q.v, -q.sc>>
OK(e) ==
    IF e.t = "i" THEN IntOK(e.o, e.n, e.sg = 1, e.w, e.r, e.y)
    ELSE LET F == Fmt(e.t)  w == [i \in DOMAIN e.w |-> Decode(F, e.w[i])] IN FloatOK(F, e.o, w, Decode(F, e.r), e.y, PiV, HalfV(F, w[3], w[4]))
Step(e) == IF e.k = "died" THEN Reject("noreturn") ELSE Check(OK(e), "result " \o e.o)
TNext == vI <= vEnd /\ vI' = vI + 1 /\ UNCHANGED vEnd /\ Step(Trace[vI])
=============================================================================
