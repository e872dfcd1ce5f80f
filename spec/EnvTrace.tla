------------------------------ MODULE EnvTrace ------------------------------
(***************************************************************************)
(* Recorded sessions of the real library as behaviours of EnvMachine.      *)
(* A session starts at an event of kind "start"; "env" events are the      *)
(* program's; "call" events carry what was found before and after.         *)
(***************************************************************************)
EXTENDS EnvMachine, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES vI, vEnd
tvars == <<envvars, vI, vEnd>>

\* sessions follow one another: a "start" event tells how many events come after it
StartList == LET RECURSIVE G(_) G(i) == IF i > N THEN <<>> ELSE <<i>> \o G(i + Trace[i].len + 1) IN G(1)

TInit == /\ \E j \in DOMAIN StartList : LET s == StartList[j]
            IN /\ vI = s + 1 /\ vEnd = s + Trace[s].len
               /\ vMode = Trace[s].m /\ vFlags = FlagSet(Trace[s].fl) /\ vErrno = Trace[s].en /\ vCtl = Trace[s].c
         /\ vMemo = <<>>

Reject(why) == PrintT("REJECT|" \o ToString(vI) \o "|" \o why \o "|state: mode " \o ToString(vMode) \o " flags " \o ToString(vFlags) \o " errno " \o ToString(vErrno))

CallStep(e) ==
    LET s1 == FlagSet(e.fl1)  key == <<e.f, e.t, e.a, e.n, vMode>>
        why == CASE e.m0 # vMode \/ FlagSet(e.fl0) # vFlags \/ e.en0 # vErrno \/ e.c0 # vCtl -> "drift"     \* it changed with nobody acting
                 [] ~KeepsMode(e.m1) -> "mode"
                 [] ~KeepsControl(e.c1) -> "control"
                 [] ~KeepsFlags(e.f, s1) -> "flags"
                 [] ~KeepsErrno(e.f, e.en1) -> "errno"
                 [] ~Remembers(key, e.r) -> "memory"
                 [] OTHER -> "ok"
    IN IF why = "ok" THEN Call(e.f, key, e.r, e.m1, s1, e.en1, e.c1)
       ELSE /\ Reject(why)
            /\ vMode' = e.m1 /\ vFlags' = s1 /\ vErrno' = e.en1 /\ vCtl' = e.c1 /\ UNCHANGED vMemo

Step(e) ==
    CASE e.k = "env"   -> /\ vMode' = e.m /\ vFlags' = FlagSet(e.fl) /\ vErrno' = e.en /\ vCtl' = e.c /\ UNCHANGED vMemo
      [] e.k = "fresh" -> IF e.cr = 1 THEN Reject("noreturn") /\ UNCHANGED envvars ELSE Fresh(<<e.f, e.t, e.a, e.n, e.m>>, e.r)
      [] e.k = "call"  -> CallStep(e)
      [] OTHER         -> Reject("noreturn") /\ UNCHANGED envvars

TNext == vI <= vEnd /\ vI' = vI + 1 /\ UNCHANGED vEnd /\ Step(Trace[vI])
=============================================================================
