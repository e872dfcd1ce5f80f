------------------------------ MODULE CcmTrace ------------------------------
(***************************************************************************)
(* The library and its floating-point environment as a state machine, and  *)
(* recorded executions of the real code as behaviours it must allow.       *)
(*                                                                         *)
(* State: the rounding mode, the sticky exception flags, errno.  Steps:    *)
(* the program sets the environment (Env), or calls a function (Call).     *)
(* The trace file is split into sessions of Chunk events, each starting    *)
(* with an Env event; each session is a behaviour, all are explored.       *)
(***************************************************************************)
EXTENDS Contract, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == atoi(IOEnv.CHUNK)
N == Len(Trace)

VARIABLES vI, vEnd, vMode, vFlags, vErrno, vRej
tvars == <<vI, vEnd, vMode, vFlags, vErrno, vRej>>

TInit == /\ \E k \in 0 .. (N - 1) \div Chunk :
              /\ vI = k * Chunk + 1
              /\ vEnd = Min2(N, (k + 1) * Chunk)
         /\ vMode = 0 /\ vFlags = 0 /\ vErrno = 0 /\ vRej = 0

Has(ev, k) == k \in DOMAIN ev

\* the program sets the environment
Env(ev) == /\ ev.f = "env"
           /\ vMode' = ev.m /\ vFlags' = ev.fl /\ vErrno' = ev.en /\ UNCHANGED vRej

\* which part of the contract this run judges
What == IOEnv.WHAT
Verdict(ev) ==
    IF Has(ev, "cr") THEN "noreturn"        \* the call crashed or did not return
    ELSE IF Has(ev, "nc") THEN (IF MayBeNonConstant(ev) THEN "ok" ELSE "nonconstant")     \* not a constant expression
    ELSE CASE What = "value" -> IF ~ValueOK(ev) THEN "value" ELSE IF ev.p \notin ConstPaths /\ ~QuietOK(ev) THEN "exceptions" ELSE "ok"
      [] What = "flags" -> IF ~FlagsOK(ev) THEN "flags" ELSE IF ~ErrnoOK(ev) THEN "errno" ELSE "ok"

Call(ev) == /\ ev.f # "env"
            /\ LET v == Verdict(ev)
               IN IF v = "ok" THEN UNCHANGED <<vMode, vFlags, vErrno, vRej>>
                  ELSE /\ PrintT("REJECT|" \o ToString(vI) \o "|" \o v \o "|" \o (IF v \in {"noreturn", "nonconstant"} THEN "return" ELSE IF v \in {"flags", "errno", "exceptions"} THEN ToString(SpecFlags(ev)) ELSE ToString(Expected(ev))))
                       /\ vRej' = vRej + 1
                       /\ UNCHANGED <<vMode, vFlags, vErrno>>

TNext == /\ vI <= vEnd
         /\ vI' = vI + 1 /\ UNCHANGED vEnd
         /\ LET ev == Trace[vI] IN Env(ev) \/ Call(ev)
=============================================================================
