------------------------------- MODULE MCEnv -------------------------------
(***************************************************************************)
(* The environment machine explored over all histories of a program that   *)
(* changes modes, flags and errno and calls two functions, one quiet, one  *)
(* not, with two arguments.  Every step is recorded in vHist, so that the  *)
(* promises are stated over whole histories rather than step by step.      *)
(***************************************************************************)
EXTENDS EnvMachine
CONSTANT Steps          \* length of the histories explored

VARIABLE vHist
vars == <<envvars, vHist>>
Fl == {{}, {1}, {16}, {1, 16}}
Fns == {"isnan", "log"}
Args == {"x", "y"}
Ress == {0, 1}
Er == {0, 1, 2, 7}

Init == /\ vMode \in {0, 1} /\ vFlags \in {{}, {16}} /\ vErrno \in {0, 7} /\ vCtl = 5 /\ vMemo = <<>> /\ vHist = <<>>
Log(x) == vHist' = Append(vHist, x)
Next ==
    /\ Len(vHist) < Steps
    /\ \/ \E m \in {0, 1} : SetMode(m) /\ Log([k |-> "mode", m |-> m])
       \/ \E s \in Fl : SetFlags(s) /\ Log([k |-> "flags", s |-> s])
       \/ SetErrno(0) /\ Log([k |-> "errno"])
       \/ \E f \in Fns, a \in Args, r \in Ress, s1 \in Fl, e1 \in Er :
            /\ Call(f, <<f, a, vMode>>, r, vMode, s1, e1, vCtl)
            /\ Log([k |-> "call", f |-> f, a |-> a, r |-> r, m |-> vMode, s0 |-> vFlags, s1 |-> s1, e0 |-> vErrno, e1 |-> e1])

Calls == {i \in DOMAIN vHist : vHist[i].k = "call"}
\* the rounding mode is the one the program set last
ModeOf(i) == LET S == {j \in 1 .. i : vHist[j].k = "mode"} IN IF S = {} THEN -1 ELSE vHist[CHOOSE j \in S : \A l \in S : l <= j].m
Functional == \A i, j \in Calls : (vHist[i].f = vHist[j].f /\ vHist[i].a = vHist[j].a /\ vHist[i].m = vHist[j].m) => vHist[i].r = vHist[j].r
ModeKept == \A i \in Calls : ModeOf(i) \in {-1, vHist[i].m}
Sticky == \A i \in Calls : vHist[i].s0 \subseteq vHist[i].s1
Quiet == \A i \in Calls : vHist[i].f = "isnan" => vHist[i].s0 = vHist[i].s1 /\ vHist[i].e0 = vHist[i].e1
ErrnoCodes == \A i \in Calls : vHist[i].e1 \in {vHist[i].e0, 1, 2}
\* a flag, once raised, is there until the program takes it away
Persist == \A i, j \in Calls : (i < j /\ ~\E l \in i .. j : vHist[l].k = "flags") => vHist[i].s1 \subseteq vHist[j].s0
Good == Functional /\ ModeKept /\ Sticky /\ Quiet /\ ErrnoCodes /\ Persist /\ vCtl = 5
=============================================================================
