------------------------------ MODULE DetTrace ------------------------------
(***************************************************************************)
(* Deterministic builds.  A call is one step; every build takes part in it *)
(* with its own copy of the machine.  The step is allowed only if all the  *)
(* copies move to the same observation: the same bits (any NaN stands for  *)
(* every NaN), the same integer, and, where the build evaluated the call   *)
(* in a constant expression, a constant at all.                            *)
(***************************************************************************)
EXTENDS Contract, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Chunk == 64
VARIABLES vI, vEnd, vObs
TInit == \E k \in 0 .. (N - 1) \div Chunk : vI = k * Chunk + 1 /\ vEnd = Min2(N, (k + 1) * Chunk) /\ vObs = <<>>

Canon(t, b) == IF IsNaN(Decode(Fmt(t), b)) THEN "nan" ELSE ToString(b)
Obs(e, o) == <<[ k \in DOMAIN o.r |-> Canon(e.t, o.r[k]) ], IF \E k \in DOMAIN o.r : IsNaN(Decode(Fmt(e.t), o.r[k])) THEN 0 ELSE o.q>>
Evaluated(e, o) == "nc" \notin DOMAIN o
Observations(e) == { Obs(e, e.rs[k]) : k \in { j \in DOMAIN e.rs : Evaluated(e, e.rs[j]) } }
TNext == /\ vI <= vEnd /\ vI' = vI + 1 /\ UNCHANGED vEnd
         /\ LET e == Trace[vI]
                O == Observations(e)
            IN IF Cardinality(O) = 1 THEN vObs' = (CHOOSE o \in O : TRUE)
               ELSE vObs' = <<>> /\ PrintT("REJECT|" \o ToString(vI) \o "|differs|" \o ToString(Cardinality(O)))
=============================================================================
