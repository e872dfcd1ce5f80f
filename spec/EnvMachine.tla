----------------------------- MODULE EnvMachine -----------------------------
(***************************************************************************)
(* The floating-point environment a program shares with the library: the   *)
(* rounding mode, the sticky exception flags (a set), errno, and the other *)
(* control bits of the processor (masks, flush modes, x87 precision).      *)
(* The program may set any of it; a call of the library may only raise     *)
(* flags and store EDOM or ERANGE, and what it returns is determined by    *)
(* its arguments and the rounding mode: vMemo remembers every answer given *)
(* so far, and a later call must repeat it.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES vMode, vFlags, vErrno, vCtl, vMemo
envvars == <<vMode, vFlags, vErrno, vCtl, vMemo>>

Modes == 0 .. 3
AllFlags == {1, 2, 4, 8, 16}
FlagSet(n) == {b \in AllFlags : (n \div b) % 2 = 1}
EDOMc == 1   ERANGEc == 2

\* functions that classify, compare, select or copy signs: they leave flags and errno alone
QuietFns == {"isnan", "isinf", "isfinite", "isnormal", "signbit", "fpclassify", "isgreater", "isgreaterequal", "isless",
             "islessequal", "islessgreater", "isunordered", "fabs", "copysign", "fmin", "fmax"}

\* the program's own steps
SetMode(m)    == vMode' = m  /\ UNCHANGED <<vFlags, vErrno, vCtl, vMemo>>
SetFlags(s)   == vFlags' = s /\ UNCHANGED <<vMode, vErrno, vCtl, vMemo>>
SetErrno(e)   == vErrno' = e /\ UNCHANGED <<vMode, vFlags, vCtl, vMemo>>

\* what a call may do to the environment: m1, s1, e1, c1 are what is found afterwards
KeepsMode(m1)        == m1 = vMode
KeepsControl(c1)     == c1 = vCtl
KeepsFlags(f, s1)    == vFlags \subseteq s1 /\ (f \in QuietFns => s1 = vFlags)
KeepsErrno(f, e1)    == e1 = vErrno \/ (f \notin QuietFns /\ e1 \in {EDOMc, ERANGEc})
Remembers(key, res)  == key \in DOMAIN vMemo => vMemo[key] = res

\* the same call made in another process, in a clean environment: an answer to be repeated here
Fresh(key, res) == Remembers(key, res) /\ vMemo' = (key :> res) @@ vMemo /\ UNCHANGED <<vMode, vFlags, vErrno, vCtl>>

Call(f, key, res, m1, s1, e1, c1) ==
    /\ KeepsMode(m1) /\ KeepsControl(c1) /\ KeepsFlags(f, s1) /\ KeepsErrno(f, e1) /\ Remembers(key, res)
    /\ vMode' = m1 /\ vFlags' = s1 /\ vErrno' = e1 /\ vCtl' = c1
    /\ vMemo' = (key :> res) @@ vMemo
=============================================================================
