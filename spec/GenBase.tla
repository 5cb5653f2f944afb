------------------------------- MODULE GenBase -------------------------------
(* Scenario records and helpers shared by the generator specifications.     *)
(* A scenario is a program for the harness: a sequence of lines             *)
(* "<context> <operation> <arguments>" (see harness/vf.c), with what its    *)
(* environment is expected to do (exp) and the properties that a hang,      *)
(* crash or stuck script counts against (any).                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

N(i) == ToString(i)
DefExp == [nulldata |-> 0, giveup |-> 0, stack |-> 0, failfork |-> 0, xok |-> 0, xerr |-> 0, sysret |-> -999, ign |-> <<>>, cfg |-> <<>>, shoot |-> 0]
Sc(id, lines, any) ==
  [id |-> id, script |-> lines, exp |-> DefExp, any |-> any, mode |-> "both", tier |-> 0,
   env |-> <<>>, args |-> <<>>, files |-> <<>>, tmo |-> 12000, reps |-> 1, step |-> 0, tag |-> "", variant |-> "default"]
Flat(ss) == FlattenSeq(ss)
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
Upto(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
SetSeq(S) == SetToSeq(S)
Dyn(s) == [s EXCEPT !.mode = "dyn"]
Thorough(s) == [s EXCEPT !.tier = 1]
Long(s) == [s EXCEPT !.tmo = 40000]
Reps(s, n) == [s EXCEPT !.reps = n]
(* every k-th scenario once more with libmonitor's debug messages on         *)
Dbg(s) == [s EXCEPT !.id = @ \o "-dbg", !.env = Append(@, <<"MONITOR_DEBUG", "1">>), !.reps = 1, !.step = 0]
Debug(S, k) == [i \in 1..(Len(S) \div k) |-> Dbg(S[k * i])]
Emit(S) == ndJsonSerialize(IOEnv.VF_OUT, S)
=============================================================================
