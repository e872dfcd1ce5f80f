----------------------------- MODULE LerpTrace -----------------------------
(***************************************************************************)
(* Recorded walks of the real lerp as behaviours of the walk of Lerp.tla.  *)
(***************************************************************************)
EXTENDS Lerp, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES vI, vEnd, vHead, vLast
tvars == <<vI, vEnd, vHead, vLast>>

StartList == LET RECURSIVE G(_) G(i) == IF i > N THEN <<>> ELSE <<i>> \o G(i + Trace[i].len + 1) IN G(1)
TInit == \E j \in DOMAIN StartList : LET s == StartList[j]
            IN vHead = s /\ vI = s + 1 /\ vEnd = s + Trace[s].len /\ vLast = <<>>

Reject(why) == PrintT("REJECT|" \o ToString(vI) \o "|" \o why \o "|")
TNext ==
    /\ vI <= vEnd /\ vI' = vI + 1 /\ UNCHANGED <<vEnd, vHead>>
    /\ LET h == Trace[vHead]  F == Fmt(h.t)  e == Trace[vI]
           a == Decode(F, h.a)  b == Decode(F, h.b)  t == Decode(F, e.x)  r == Decode(F, e.r)
       IN /\ vLast' = <<t, r>>
          /\ \/ PointOK(F, a, b, t, r) /\ (vLast # <<>> => StepOK(a, b, vLast[1], vLast[2], t, r))
             \/ ~PointOK(F, a, b, t, r) /\ Reject(IF IsNaN(r) THEN "nan" ELSE IF ~Ends(a, b, t, r) THEN "ends" ELSE IF ~Bounded(a, b, t, r) THEN "bounds" ELSE "accuracy")
             \/ PointOK(F, a, b, t, r) /\ vLast # <<>> /\ ~StepOK(a, b, vLast[1], vLast[2], t, r) /\ Reject("monotone")
=============================================================================
