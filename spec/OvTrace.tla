------------------------------ MODULE OvTrace -------------------------------
(***************************************************************************)
(* Recorded calls of the overloads next to the floating-point functions on *)
(* arguments converted to float, double and long double.  The rule picks   *)
(* the format; the conversion and the equality of the results are judged.  *)
(***************************************************************************)
EXTENDS Overload, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Chunk == 64
VARIABLES vI, vEnd
TInit == \E k \in 0 .. (N - 1) \div Chunk : vI = k * Chunk + 1 /\ vEnd = Min2(N, (k + 1) * Chunk)

SameRes(e, P, x, y) == IF IsFp(e.rt) THEN e.rt = P /\ (x = y \/ (IsNaN(Decode(Fmt(P), x)) /\ IsNaN(Decode(Fmt(P), y)))) ELSE FALSE
Verdict(e) ==
    IF e.k = "none" THEN (IF Optional(e.g, e.ts) THEN "ok" ELSE "missing")
    ELSE LET R == Rule(e.g, e.f, e.ts)
         IN IF e.rt # R.rt THEN "type"
            ELSE IF R.k = "int" THEN (LET v == IntResult(e.f, R.P, e.a) IN IF ~v.ok \/ e.r = v.v THEN "ok" ELSE "value")
            ELSE LET ref == e["r" \o R.P]
                     conv == [ k \in DOMAIN e.a |-> IF e.f = "nexttoward" /\ k = 2 THEN Decode(F80, e.a[2]) ELSE ToFmt(Fmt(R.P), e.m, ArgDatum(e.ts[k], e.a[k])) ]
                 IN IF \E k \in DOMAIN e.a : ~Same(conv[k], Decode(IF e.f = "nexttoward" /\ k = 2 THEN F80 ELSE Fmt(R.P), ref.a[k])) THEN "conversion"
                    ELSE IF e.q # ref.q /\ IsFp(e.rt) THEN "quotient"
                    ELSE IF IF IsFp(e.rt) THEN SameRes(e, R.P, e.r, ref.r) ELSE e.r = BFromInt(ref.q) THEN "ok" ELSE "value"
TNext == /\ vI <= vEnd /\ vI' = vI + 1 /\ UNCHANGED vEnd
         /\ LET v == Verdict(Trace[vI]) IN v = "ok" \/ PrintT("REJECT|" \o ToString(vI) \o "|" \o v \o "|" \o (IF Trace[vI].k = "none" THEN "" ELSE ToString(Rule(Trace[vI].g, Trace[vI].f, Trace[vI].ts))))
=============================================================================
