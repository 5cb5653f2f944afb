------------------------------- MODULE GenSig -------------------------------
(* Scenarios for dispositions, delivery, fatal signals, masks and waiting.  *)
EXTENDS GenBase

Catchable == SelectSeq(Upto(1, 64), LAMBDA g : g \notin {9, 19, 32, 33})
NoTermS == {17, 18, 23, 28}
StopS == {20, 21, 22}
Term == SelectSeq(Catchable, LAMBDA g : g \notin NoTermS \cup StopS)
L(ctx, x) == ctx \o " " \o x
M(x) == "m " \o x
On(ctx, ls) == [i \in DOMAIN ls |-> ctx \o " " \o ls[i]]
SS(id, ls, any) == Sc(id, On("m", <<"cur">> \o ls \o <<"mark end", "exit 3">>), any)
S5 == <<"C15">>
S6 == <<"C16">>

(* ------------------------------------------------------- dispositions *)
Sets == <<"none", "all", "10", "10,12,34,64", "!11,42">>
FlagsL == <<"-", "s", "r", "sr", "sn", "nc", "scw">>
DispSeq(g) ==
  LET n == N(g)  m1 == Sets[1 + (g % 5)]  m2 == Sets[1 + ((g + 2) % 5)]  f1 == FlagsL[1 + (g % 7)]  f2 == FlagsL[1 + ((g + 3) % 7)] IN
  << "sa " \o n \o " q", "sa " \o n \o " h0 " \o f1 \o " " \o m1, "sa " \o n \o " q", "sa " \o n \o " h1 " \o f2 \o " " \o m2,
     "sa " \o n \o " q", "signal " \o n \o " ign", "sa " \o n \o " q", "sa " \o n \o " h1 s none noold", "sa " \o n \o " q",
     "sa " \o n \o " dfl r " \o m2, "sa " \o n \o " q", "signal " \o n \o " h0", "signal " \o n \o " dfl", "sa " \o n \o " ign - none", "sa " \o n \o " h0 s none", "sa " \o n \o " q",
     "sa " \o n \o " h1 sn " \o m1 \o " alias", "sa " \o n \o " q", "signal " \o n \o " err", "sa " \o n \o " q", "sa " \o n \o " dfl - none", "sa " \o n \o " q" >>
Disp ==
  [i \in 1..64 |-> SS("disp-" \o N(i), DispSeq(i), S5)] \o
  [i \in 1..64 |-> SS("dispc-" \o N(i), <<"csa " \o N(i) \o " c0">> \o SubSeq(DispSeq(i), 1, 9) \o <<"csa " \o N(i) \o " c1", "sa " \o N(i) \o " q">>
        \o SubSeq(DispSeq(i), 10, 16) \o <<"csa " \o N(i) \o " null", "sa " \o N(i) \o " q">>, S5)] \o
  [i \in 1..8 |-> LET g == <<"0", "-1", "65", "66", "128", "1000", "-2147483648", "2147483647">>[i] IN
      SS("disp-inv" \o N(i), <<"sa " \o g \o " q", "sa " \o g \o " h0 s none", "sa " \o g \o " ign - none noold", "signal " \o g \o " h0", "signal " \o g \o " ign",
                               "signal " \o g \o " dfl", "csa " \o g \o " c0", "csa " \o g \o " null">>, S5)]
(* inherited dispositions: ignored when the program starts, and over exec *)
Inherit ==
  LET Ig(gs) == Flat([i \in DOMAIN gs |-> <<"sa " \o N(gs[i]) \o " q", "snd " \o N(gs[i]) \o " raise", "signal " \o N(gs[i]) \o " h0", "snd " \o N(gs[i]) \o " raise",
                                            "sa " \o N(gs[i]) \o " ign - none">>])
      I(id, gs, ls) == [SS("inherit-" \o id, ls, S5) EXCEPT !.exp.ign = gs, !.env = << <<"VFIGN", FoldSeq(LAMBDA x, acc : acc \o N(x) \o ",", "", gs)>> >>] IN
  << I("1", <<1>>, Ig(<<1>>)), I("13", <<13>>, Ig(<<13>>)), I("rt", <<40, 50>>, Ig(<<40, 50>>)), I("many", <<1, 2, 3, 13, 15, 20, 23, 34>>, Ig(<<1, 2, 3, 13, 15, 20, 23, 34>>)),
     I("stop", <<20, 21, 22>>, Ig(<<20, 21, 22>>)),
     I("client", <<10, 12>>, <<"csa 10 c1", "snd 10 raise", "csa 12 c0", "snd 12 kill", "sa 10 q", "sa 12 q">>) >> \o
  LET E(id, pre, post, ign) == [Sc("inherit-exec-" \o id, On("m", <<"cur">> \o pre \o <<"exec v @APP@ 2 keep">>) \o On("arg1", <<"cur">> \o post \o <<"mark end", "exit 3">>), <<"C15", "C12">>)
                                EXCEPT !.exp.ign = ign, !.env = IF ign = <<>> THEN <<>> ELSE << <<"VFIGN", FoldSeq(LAMBDA x, acc : acc \o N(x) \o ",", "", ign)>> >>] IN
  << E("ign", <<"signal 1 ign", "sa 13 ign - none", "sa 50 ign - none">>, <<"sa 1 q", "sa 13 q", "sa 50 q", "snd 1 raise", "snd 13 kill", "sa 2 q">>, <<>>),
     E("hand", <<"signal 1 h0", "sa 13 h1 s all", "sa 50 h0 - none">>, <<"sa 1 q", "sa 13 q", "sa 50 q", "sa 2 q">>, <<>>),
     E("inh", <<>>, <<"sa 1 q", "sa 15 q", "snd 1 raise", "snd 15 raise">>, <<1, 15>>),
     E("reset", <<"sa 1 dfl - none", "signal 15 h0">>, <<"sa 1 q", "sa 15 q">>, <<1, 15>>),
     E("mask", <<"signal 1 ign", "mask proc block 10,15,40">>, <<"sa 1 q", "mask proc unblock 10", "cur">>, <<>>),
     E("client", <<"signal 10 ign", "csa 10 c0">>, <<"sa 10 q", "snd 10 raise">>, <<>>),
     E("failed", <<"signal 1 ign", "exec v /nonexistent 2 keep", "exec vp nosuchprogram 2 keep", "sa 1 q", "csa 1 c1", "snd 1 raise", "signal 1 h0", "snd 1 raise", "signal 1 ign">>,
          <<"sa 1 q", "snd 1 raise">>, <<>>) >>

(* ----------------------------------------------------------- delivery *)
Hows(g) == IF g = 17 THEN <<"raise", "kill", "queue">> ELSE <<"raise", "kill", "tkill", "queue", "child">>
Snd(g, h) == "snd " \o N(g) \o " " \o h \o (IF h = "queue" THEN " " \o N(100 + g) ELSE "")
SndAll(g) == [i \in DOMAIN Hows(g) |-> Snd(g, Hows(g)[i])]
DeliverySeq(g, c) ==
  LET n == N(g) IN
  (IF c = "none" THEN <<>> ELSE <<"csa " \o n \o " " \o c>>) \o
  <<"sa " \o n \o " h0 - none">> \o SndAll(g) \o <<"sa " \o n \o " h1 s " \o Sets[1 + (g % 5)]>> \o SndAll(g) \o
  <<"sa " \o n \o " h0 sn none">> \o SndAll(g) \o <<"signal " \o n \o " ign">> \o SndAll(g) \o <<"signal " \o n \o " h1">> \o SndAll(g) \o
  (IF g \in NoTermS \/ c = "c0" THEN <<"signal " \o n \o " dfl">> \o SndAll(g) ELSE <<>>) \o
  (IF c = "none" THEN <<>> ELSE <<"signal " \o n \o " h0", "csa " \o n \o " null">> \o SndAll(g))
Clients == <<"none", "c0", "c1">>
Deliver ==
  Flat([c \in 1..3 |-> [i \in DOMAIN Catchable |-> SS("del-" \o Clients[c] \o "-" \o N(Catchable[i]), DeliverySeq(Catchable[i], Clients[c]), S6)]])
(* stop signals *)
Stops ==
  Flat([c \in 1..3 |-> [i \in 1..3 |-> LET g == <<20, 21, 22>>[i] IN
     SS("stop-" \o Clients[c] \o "-" \o N(g), (IF c = 1 THEN <<>> ELSE <<"csa " \o N(g) \o " " \o Clients[c]>>) \o
        <<Snd(g, "raise"), "mark go", Snd(g, "kill"), "mark go", "signal " \o N(g) \o " h0", Snd(g, "raise"), "signal " \o N(g) \o " ign", Snd(g, "raise"),
          "signal " \o N(g) \o " dfl", Snd(g, "tkill"), "mark go">>, S6)]])
(* blocked, pending, unblocked; nested in handlers *)
PendSig == <<10, 12, 15, 34, 50, 28, 20 , 17>>
Pending ==
  Flat([c \in 1..3 |-> [i \in DOMAIN PendSig |-> LET g == PendSig[i]  n == N(g) IN
     SS("pend-" \o Clients[c] \o "-" \o n,
        <<"sa " \o n \o " h0 s none", "mask proc block " \o n>> \o (IF c = 1 THEN <<>> ELSE <<"csa " \o n \o " " \o Clients[c]>>) \o
        <<Snd(g, "raise"), Snd(g, "raise"), Snd(g, "kill"), Snd(g, "queue"), "mask proc set none", "cur", "mask real unblock " \o n, "cur",
          "sa " \o n \o " h1 - none", Snd(g, "raise"), "mask pthr block all", Snd(g, "queue"), "mask pthr set none", "mask real set none">>, S6)]])
Nest ==
  LET NS(id, ls) == Sc("nest-" \o id, On("m", <<"cur">>) \o ls \o On("m", <<"mark end", "exit 3">>), S6) IN
  << NS("raise-same", <<"m sa 10 h0 - none", "h:10 mark in">> \o <<"m snd 10 raise">>),
     NS("same-deferred", <<"m sa 10 h0 s none", "m signal 12 h1", "h:12 snd 10 raise", "h:12 mark x", "m snd 12 raise", "m snd 10 queue 7">>),
     NS("masked", <<"m sa 12 h0 - 10,50", "m sa 10 h1 s none", "m sa 50 h1 s none", "h:12 snd 10 raise", "h:12 snd 50 queue 5", "h:12 snd 50 queue 6", "h:12 mark x", "m snd 12 raise">>),
     NS("maskchange", <<"m sa 12 h0 - 10", "m sa 10 h1 s none", "h:12 snd 10 raise", "h:12 mask proc unblock 10", "h:12 mark x", "m snd 12 raise", "m cur">>),
     NS("maskset", <<"m sa 12 h0 - all", "m sa 10 h1 s none", "h:12 mask pthr set none", "h:12 snd 10 raise", "h:12 mark x", "m snd 12 raise", "m cur">>),
     NS("client-open", <<"m csa 50 c0", "m sa 12 h0 - all", "h:12 snd 50 raise", "h:12 mark x", "m snd 12 raise">>),
     NS("client-open2", <<"m csa 50 c1", "m sa 50 h0 s none", "m sa 12 h0 s 50,10", "h:12 snd 50 queue 9", "h:12 mark x", "m snd 12 raise">>),
     NS("client-in-client", <<"m csa 50 c0", "m csa 51 c0", "c:50 snd 51 raise", "m snd 50 raise", "m sa 50 h1 - 51", "m snd 50 raise">>),
     NS("client-pass-nest", <<"m csa 50 c1", "m csa 51 c1", "m sa 50 h0 s none", "m sa 51 h1 s none", "c:50 snd 51 raise", "h:50 snd 51 queue 3", "m snd 50 raise">>),
     NS("disp-in-handler", <<"m signal 10 h0", "h:10 signal 10 h1", "h:10 sa 10 q", "m snd 10 raise", "m sa 10 q", "m snd 10 raise">>),
     NS("disp-in-client", <<"m csa 10 c1", "m signal 10 h0", "c:10 sa 10 h1 s none", "m snd 10 raise", "m snd 10 queue 4">>),
     NS("csa-in-client", <<"m csa 10 c1", "m signal 10 h0", "c:10 csa 10 c0", "m snd 10 raise">>),
     NS("chld-real", <<"m signal 17 h0", "m sa 17 h1 s none", "m snd 17 raise">>),
     NS("alarm", <<"m sa 14 h0 s none", "m snd 14 alarm", "m sa 27 h0 - none", "m snd 27 alarm", "m csa 27 c0", "m snd 27 alarm">>) >>
(* faults that the application handles by jumping out *)
Faults == <<"segv", "bus", "ill", "fpe">>
FSig == <<11, 7, 4, 8>>
Jump ==
  [i \in 1..4 |-> SS("jump-" \o Faults[i], <<"sa " \o N(FSig[i]) \o " h0 s none", "fault " \o Faults[i], "cur", "fault " \o Faults[i], "cur">>, S6)] \o
  [i \in 1..4 |-> SS("jumpc-" \o Faults[i], <<"csa " \o N(FSig[i]) \o " c1", "sa " \o N(FSig[i]) \o " h0 s none", "fault " \o Faults[i], "cur", "fault " \o Faults[i], "cur">>, S6)] \o
  << SS("pipe-h", <<"sa 13 h0 s none", "fault pipe", "signal 13 ign", "fault pipe", "csa 13 c0", "fault pipe", "signal 13 dfl", "fault pipe">>, S6) >>
JumpX == [i \in DOMAIN Jump |-> [Jump[i] EXCEPT !.script = @ \o [k \in 1..4 |-> "h:" \o N(FSig[k]) \o " jump"]]]

(* ------------------------------------------------------------- fatal *)
S7 == <<"C17", "C02", "C03">>
FHows == <<"raise", "kill", "queue", "child">>
F(id, ls) == Sc("fatal-" \o id, ls, S7)
Fatal ==
  Flat([i \in DOMAIN Term |-> LET g == Term[i] IN
     << F("s-" \o N(g), <<"m cur", "m fatal " \o N(g) \o " " \o FHows[1 + (i % 4)], "m mark alive", "m exit 9">>),
        F("m-" \o N(g), <<"m cur", "m create 1", "T1 set 1", "T1 park sleep", "m await 1", "m fatal " \o N(g) \o " " \o FHows[1 + ((i + 1) % 4)], "m ms 400", "m mark alive", "m exit 9">>),
        F("t-" \o N(g), <<"m create 1", "T1 cur", "T1 fatal " \o N(g) \o " tkill", "T1 mark alive", "T1 exit 9", "m join 1", "m exit 9">>) >>]) \o
  [i \in 1..4 |-> F("fault-" \o Faults[i], <<"m cur", "m atexit 0", "m faultf " \o Faults[i], "m mark alive", "m exit 9">>)] \o
  [i \in 1..4 |-> F("faultt-" \o Faults[i], <<"m create 1", "m create 2", "T2 set 1", "T2 park spin", "T1 await 1", "T1 faultf " \o Faults[i], "T1 mark alive", "m join 1", "m exit 9">>)] \o
  [i \in 1..4 |-> F("faultc-" \o Faults[i], <<"m cur", "m csa " \o N(FSig[i]) \o " c1", "m faultf " \o Faults[i], "m mark alive", "m exit 9">>)] \o
  [i \in 1..4 |-> F("async-" \o Faults[i] \o "-" \o FHows[i], <<"m cur", "m fatal " \o N(FSig[i]) \o " " \o FHows[i], "m mark alive", "m exit 9">>)] \o
  << F("trap", <<"m cur", "m faultf trap", "m mark alive", "m exit 9">>), F("pipe", <<"m cur", "m faultf pipe", "m mark alive", "m exit 9">>),
     F("abort", <<"m cur", "m fatal 6 abort", "m mark alive", "m exit 9">>),
     F("abort-blocked", <<"m cur", "m mask proc block 6", "m fatal 6 abort", "m mark alive", "m exit 9">>),
     F("abort-thr", <<"m create 1", "T1 cur", "T1 fatal 6 abort", "m join 1", "m exit 9">>),
     F("client-pass", <<"m cur", "m csa 15 c1", "m fatal 15 raise", "m mark alive", "m exit 9">>),
     F("client-pass2", <<"m cur", "m csa 15 c0", "m snd 15 raise", "m csa 15 c1", "m fatal 15 kill", "m mark alive", "m exit 9">>),
     F("after-handler", <<"m cur", "m signal 15 h0", "m snd 15 raise", "m signal 15 dfl", "m fatal 15 raise", "m mark alive", "m exit 9">>),
     F("after-ign", <<"m cur", "m sa 15 ign - none", "m snd 15 raise", "m sa 15 dfl s all", "m fatal 15 raise", "m mark alive", "m exit 9">>),
     F("in-handler", <<"m cur", "m signal 10 h0", "h:10 fatal 15 raise", "h:10 mark alive", "m snd 10 raise", "m exit 9">>),
     F("in-handler-masked", <<"m cur", "m sa 10 h0 s all", "h:10 fatal 15 raise", "h:10 mark in", "m snd 10 raise", "m mark alive", "m exit 9">>),
     F("blocked", <<"m cur", "m mask proc block 15", "m fatal 15 raise", "m mark in", "m mask proc set none", "m mark alive", "m exit 9">>),
     F("blocked-rt", <<"m cur", "m mask pthr set 50", "m fatal 50 queue 3", "m fatal 50 queue 4", "m mark in", "m mask pthr unblock 50", "m mark alive", "m exit 9">>),
     F("in-client", <<"m cur", "m csa 10 c0", "c:10 fatal 15 raise", "c:10 mark alive", "m snd 10 raise", "m mark alive", "m exit 9">>),
     F("to-thr", <<"m create 1", "T1 set 1", "T1 park sleep", "m await 1", "m fatal 15 thr:1", "m park sleep">>),
     F("to-thr-spin", <<"m create 1", "m create 2", "T2 set 1", "T2 park spin", "T1 set 1", "T1 park spin", "m await 1 2", "m fatal 10 thr:1", "m park pause">>),
     F("to-main", <<"m mainh", "m create 1", "m set 1", "T1 await 1", "T1 fatal 15 main", "T1 park sleep", "m park pause">>),
     F("all-blocked-but-main", <<"m create 1", "T1 mask pthr block all", "T1 set 1", "T1 park sleep", "m await 1", "m fatal 15 kill", "m ms 300", "m exit 9">>),
     F("all-blocked-but-thr", <<"m mask proc block 15", "m create 1", "T1 mask pthr unblock 15", "T1 set 1", "T1 park sleep", "m await 1", "m fatal 15 kill", "m park sleep">>),
     F("two", <<"m create 1", "m create 2", "T1 set 1", "T1 await 2", "T1 fatal 15 tkill", "T2 set 1", "T2 await 2", "T2 fatal 10 tkill", "m await 1 2", "m set 2", "m park sleep">>),
     F("vs-exit", <<"m create 1", "T1 set 1", "T1 await 2", "T1 fatal 15 tkill", "m await 1", "m set 2", "m exit 4">>),
     F("in-fork", <<"m fork K1", "m reap", "K1 fatal 15 raise", "m exit 3">>), F("in-fork-kill", <<"m create 1", "m join 1", "m fork K1", "m reap", "K1 create 2", "T2 park sleep", "K1 fatal 15 kill", "K1 park sleep", "m exit 3">>),
     Dyn(F("early", <<"E fatal 15 raise", "m exit 9">>)), F("in-atexit", <<"m atexit 0", "A0 fatal 15 raise", "m exit 3">>),
     F("in-fini", <<"cb:fini_process fatal 15 raise", "m exit 3">>),
     F("in-begin", <<"cb:begin_exit fatal 15 raise", "m exit 3">>),
     Reps(F("vs-exit-r", <<"m create 1", "T1 set 1", "T1 await 2", "T1 fatal 15 tkill", "m await 1", "m set 2", "m us 20", "m exit 4">>), 4),
     Reps(F("storm", <<"m create 1", "m create 2", "m create 3", "T1 set 1", "T1 park spin", "T2 set 1", "T2 await 2", "T2 fatal 15 tkill", "T3 set 1", "T3 await 2", "T3 fatal 12 tkill", "m await 1 3", "m set 2", "m fatal 10 raise", "m exit 1">>), 4),
     F("late-h", <<"m cur", "m sa 10 h0 - 1,2,15", "cb:fini_process snd 10 raise", "m fatal 15 raise", "m mark alive", "m exit 9">>),
     F("late-h2", <<"m cur", "m sa 10 h0 - 1,2,15", "m create 1", "T1 await 1", "cb:fini_process snd 10 raise", "h:10 exit 7", "m fatal 15 kill", "m mark alive", "m exit 9">>),
     F("late-h3", <<"m create 1", "T1 cur", "m sa 1 h0 - all", "cb:begin_exit snd 1 raise", "h:1 _exit 7", "T1 fatal 15 tkill", "T1 mark alive", "m join 1", "m exit 9">>),
     F("pend-own", <<"m cur", "m mask proc block 15", "m fatal 15 raise", "m exit 3">>) >> \o
  (* another fatal signal is blocked and pending *)
  Flat([i \in 1..5 |-> LET b == <<14, 1, 15, 50, 10>>[i]  f == <<15, 10, 2, 12, 3>>[i] IN
     << F("pend-m-" \o N(i), <<"m cur", "m mask proc block " \o N(b), "m snd " \o N(b) \o " raise", "m fatal " \o N(f) \o " raise", "m mark alive", "m exit 9">>),
        F("pend-s-" \o N(i), <<"m cur", "m mask proc block " \o N(b), "m create 1", "T1 set 1", "T1 park sleep", "m await 1", "m snd " \o N(b) \o " kill", "m fatal " \o N(f) \o " raise", "m mark alive", "m exit 9">>),
        F("pend-t-" \o N(i), <<"m create 1", "T1 mask pthr block " \o N(b), "T1 cur", "T1 snd " \o N(b) \o " raise", "T1 fatal " \o N(f) \o " tkill", "T1 mark alive", "T1 exit 9", "m join 1", "m exit 9">>) >>]) \o
  << Sc("nonfatal-thr", <<"m create 1", "T1 cur", "T1 signal 15 h0", "T1 set 1", "T1 await 2", "T1 mark end", "m await 1", "m snd 15 thr:1", "m awaith 1", "m set 2", "m join 1", "m exit 3">>, S7) >>

(* -------------------------------------------------------------- masks *)
S8 == <<"C18">>
MaskSets == <<"none", "all", "10", "42", "27", "10,42,27", "!15", "1,2,3,34,64,63,35">>
Apis == <<"proc", "pthr">>
MHows == <<"block", "unblock", "set">>
MaskPair ==
  Flat([a \in 1..2 |-> Flat([h \in 1..3 |-> [k \in DOMAIN MaskSets |->
    SS("mask-" \o Apis[a] \o "-" \o MHows[h] \o "-" \o N(k),
       <<"mask " \o Apis[a] \o " " \o MHows[h] \o " " \o MaskSets[k]>> \o
       Flat([h2 \in 1..3 |-> Flat([k2 \in DOMAIN MaskSets |-> <<"mask " \o Apis[1 + ((k2 + h2) % 2)] \o " " \o MHows[h2] \o " " \o MaskSets[k2],
                                                                "mask real " \o MHows[1 + ((k2 + h2) % 3)] \o " " \o MaskSets[1 + ((k + k2 + h2) % 8)]>>])]), S8)]])])
MaskArgs ==
  [a \in 1..2 |-> SS("maskarg-" \o Apis[a], <<"mask " \o Apis[a] \o " 7 10", "mask " \o Apis[a] \o " -1 all", "mask " \o Apis[a] \o " 3 none", "mask " \o Apis[a] \o " 9 null",
      "mask " \o Apis[a] \o " block null", "mask " \o Apis[a] \o " set null noold", "mask " \o Apis[a] \o " block 10 noold", "mask " \o Apis[a] \o " unblock 10,12 noold", "cur">>, S8)] \o
  [a \in 1..2 |-> SS("maskcl-" \o Apis[a], <<"mask " \o Apis[a] \o " block 10,12,50", "csa 50 c0", "mask " \o Apis[a] \o " unblock all", "mask " \o Apis[a] \o " set all", "csa 10 c1", "mask " \o Apis[a] \o " set none",
      "mask real set none", "mask " \o Apis[a] \o " set all", "csa 12 null", "mask " \o Apis[a] \o " unblock 12", "mask real set all", "mask " \o Apis[a] \o " set none", "cur">>, S8)] \o
  << SS("mask-bad-cl", <<"csa 10 c0", "mask proc 7 10", "mask proc 7 12", "mask pthr 9 10,12", "cur">>, S8),
     [SS("mask-thr", <<"create 1", "join 1", "create 2", "join 2", "cur">>, S8) EXCEPT !.script = @ \o On("T1", <<"cur", "mask pthr block 10,12", "mask proc set all", "cur", "create 3", "join 3">>) \o
        On("T3", <<"cur", "mask pthr set none", "mask pthr set !10", "cur">>) \o On("T2", <<"cur", "mask pthr block all", "cur">>)],
     [SS("mask-fork", <<"mask proc set 10,12", "fork K1", "reap", "cur">>, S8) EXCEPT !.script = @ \o On("K1", <<"cur", "mask proc set all", "cur", "create 1", "join 1", "exit 2">>) \o On("T1", <<"mask pthr set 1", "cur">>)] >>
(* which signal is the shootdown signal *)
Sh(id, env, exp, cfg, var) == [SS("shoot-" \o id, <<"shootsig", "mask proc set all", "cur", "mask proc set none", "sa 10 h0 - all", "snd 10 raise", "create 1", "exit 2">>, <<"C18", "C05">>)
     EXCEPT !.env = IF env = "" THEN <<>> ELSE << <<"MONITOR_SHOOTDOWN_SIGNAL", env>> >>, !.exp.shoot = exp, !.exp.cfg = cfg, !.variant = var,
            !.script = @ \o On("T1", <<"shootsig", "mask pthr block all", "set 1", "park sleep">>)]
ShootVals == << <<"45", 45>>, <<"10", 10>>, <<"64", 64>>, <<"1", 1>>, <<"15", 15>>, <<" 50", 50>>, <<"34", 34>>, <<"28", 28>> >>
ShootBad == <<"9", "19", "0", "-3", "65", "200", "abc", "20", "21", "22", "">>
CfgClient == <<27, 37, 12>>
Shoot ==
  [i \in DOMAIN ShootVals |-> Sh("env" \o N(i), ShootVals[i][1], ShootVals[i][2], <<>>, "default")] \o
  [i \in DOMAIN ShootBad |-> Sh("bad" \o N(i), ShootBad[i], 0, <<>>, "default")] \o
  [i \in 1..3 |-> Sh("cfg-env" \o N(i), ShootVals[i][1], ShootVals[i][2], <<>>, "shootsig")] \o
  [i \in 1..4 |-> Sh("cfg-bad" \o N(i), ShootBad[i], 10, <<>>, "shootsig")] \o
  << Sh("cfg", "", 10, <<>>, "shootsig"), Sh("ccfg", "", 0, CfgClient, "clientsig"), Sh("ccfg-env", "45", 45, CfgClient, "clientsig"), Sh("ccfg-env2", "12", 12, CfgClient, "clientsig") >>
WithCfg(S) == [i \in DOMAIN S |-> [S[i] EXCEPT !.id = "c" \o S[i].id, !.variant = "clientsig", !.exp.cfg = CfgClient]]
MaskCfg == WithCfg(SelectSeq(MaskPair, LAMBDA x : x.id \in {"mask-proc-block-2", "mask-pthr-set-2", "mask-proc-set-1", "mask-proc-unblock-2", "mask-pthr-block-5", "mask-pthr-set-6", "mask-proc-set-6"})) \o WithCfg(MaskArgs) \o WithCfg(Nest)

(* ------------------------------------------------------------ waiting *)
S9 == <<"C19">>
WApis == <<"wait", "info", "timed", "infonull", "timednull", "timed0">>
W(id, ls) == Sc("sw-" \o id, ls, S9)
Tm(a) == IF a \in {3, 6} THEN " 3000" ELSE ""
Wait ==
  Flat([a \in 1..6 |-> LET A == WApis[a] IN
   << W("self-" \o A, On("m", <<"cur", "mask proc block 10,12,50,51", "snd 10 raise", "sw " \o A \o " 10,12" \o Tm(a), "snd 50 queue 7", "snd 50 queue 8", "snd 12 kill", "sw " \o A \o " 10,50" \o Tm(a),
        "sw " \o A \o " 50" \o Tm(a), "sw " \o A \o " all" \o Tm(a), "mark end", "exit 3">>)),
      W("c0-" \o A, On("m", <<"cur", "mask proc block 10,12,50,51", "csa 10 c0", "snd 10 raise", "snd 12 raise", "sw " \o A \o " 10,12" \o Tm(a), "csa 50 c0", "snd 50 queue 1", "snd 50 queue 2", "snd 51 queue 3",
        "sw " \o A \o " 50,51" \o Tm(a), "mark end", "exit 3">>)),
      W("c1-" \o A, On("m", <<"cur", "mask proc block 10,12,50", "csa 10 c1", "snd 10 raise", "sw " \o A \o " 10,12" \o Tm(a), "csa 50 c1", "snd 50 queue 5", "sw " \o A \o " 50" \o Tm(a),
        "snd 50 queue 6", "snd 12 raise", "sw " \o A \o " 12" \o Tm(a), "sw " \o A \o " 50" \o Tm(a), "mark end", "exit 3">>)),
      W("intr-" \o A, <<"m create 1", "T1 cur", "T1 sa 12 h0 s none", "T1 mask pthr block 10", "T1 set 1", "T1 sw " \o A \o " 10" \o Tm(a), "T1 set 2", "T1 mark end", "m await 1", "m ms 5", "m snd 12 thr:1", "m awaith 1",
        "m ms 2", "m snd 12 thr:1", "m awaith 2", "m snd 10 thr:1", "m await 2", "m join 1", "m exit 3">>),
      W("cons-" \o A, <<"m create 1", "T1 cur", "T1 mask pthr block 10,12,50", "T1 csa 50 c0", "T1 csa 12 c1", "T1 set 1", "T1 sw " \o A \o " 10,12,50" \o Tm(a), "T1 set 2", "T1 mark end", "m await 1", "m ms 5", "m snd 50 thr:1", "m awaitc 1",
        "m snd 50 thr:1", "m awaitc 2", "m snd 12 thr:1", "m await 2", "m join 1", "m exit 3">>),
      W("cons2-" \o A, <<"m create 1", "T1 cur", "T1 mask pthr block 10,50", "T1 csa 50 c0", "T1 set 1", "T1 sw " \o A \o " 10" \o Tm(a), "T1 set 2", "T1 mark end", "m await 1", "m ms 5", "m snd 50 thr:1",
        "m ms 5", "m snd 10 thr:1", "m await 2", "m join 1", "m exit 3">>),
      W("exit-" \o A, <<"m create 1", "T1 cur", "T1 mask pthr block all", "T1 set 1", "T1 sw " \o A \o " !9,19" \o (IF a \in {3, 6} THEN " 30000" ELSE ""), "T1 mark end", "m await 1", "m ms 5", "m exit 3">>),
      W("cancel-" \o A, <<"m create 1", "T1 cur", "T1 csa 12 c0", "T1 mask pthr block 10,12", "T1 set 1", "T1 sw " \o A \o " 10,12" \o (IF a \in {3, 6} THEN " 30000" ELSE ""), "T1 mark end", "m await 1", "m ms 3", "m snd 12 thr:1", "m awaitc 1", "m cancel 1", "m join 1", "m exit 3">>),
      W("exitset-" \o A, <<"m create 1", "T1 cur", "T1 mask pthr block 10", "T1 set 1", "T1 sw " \o A \o " 10" \o (IF a \in {3, 6} THEN " 30000" ELSE ""), "T1 mark end", "m await 1", "m ms 5", "m exit 3">>),
      W("exitmain-" \o A, <<"m mask proc block all", "m create 1", "T1 await 1", "T1 ms 5", "T1 exit 3", "m set 1", "m sw " \o A \o " all" \o (IF a \in {3, 6} THEN " 30000" ELSE ""), "m mark end">>),
      W("exitcl-" \o A, <<"m create 1", "m create 2", "T1 cur", "T1 csa 50 c0", "T1 mask pthr block all", "T1 set 1", "T1 sw " \o A \o " all" \o (IF a \in {3, 6} THEN " 30000" ELSE ""), "T1 mark end",
        "T2 await 1", "T2 ms 3", "T2 snd 50 thr:1", "T2 awaitc 1", "T2 exit 4", "m park sleep">>) >>]) \o
  << W("timeout", On("m", <<"cur", "mask proc block 10,12", "sw timed 10 20", "sw timed 10 0", "snd 12 raise", "sw timed 10 5", "sw timed 12 0", "sw timed0 12 0", "mark end", "exit 3">>)),
     W("timeout-c0", On("m", <<"cur", "mask proc block 10,12", "csa 10 c0", "snd 10 raise", "sw timed 10 30", "snd 10 raise", "sw timed 10,12 0", "mark end", "exit 3">>)),
     W("timed-storm", <<"m create 1", "T1 cur", "T1 csa 12 c0", "T1 mask pthr block 10", "T1 set 1", "T1 sw timed 10 180", "T1 set 2", "T1 mark end", "m await 1", "m sndu 2 12 thr:1", "m join 1", "m exit 3">>),
     W("timed-storm-1s", <<"m create 1", "T1 cur", "T1 csa 12 c0", "T1 mask pthr block 10", "T1 set 1", "T1 sw timed 10 1070", "T1 set 2", "T1 mark end", "m await 1", "m sndu 2 12 thr:1", "m join 1", "m exit 3">>),
     W("timed-one-1s", <<"m create 1", "T1 cur", "T1 csa 12 c0", "T1 mask pthr block 10", "T1 set 1", "T1 sw timed 10 1070", "T1 mark end", "m await 1", "m ms 200", "m snd 12 thr:1", "m join 1", "m exit 3">>),
     W("timed-one-in", <<"m create 1", "T1 cur", "T1 csa 12 c0", "T1 mask pthr block 10,12", "T1 set 1", "T1 sw timed 10,12 1020", "T1 mark end", "m await 1", "m ms 700", "m snd 12 thr:1", "m join 1", "m exit 3">>),
     W("timed-one-h", <<"m create 1", "T1 cur", "T1 sa 12 h0 - none", "T1 mask pthr block 10", "T1 set 1", "T1 sw timed 10 240", "T1 mark end", "m await 1", "m ms 60", "m snd 12 thr:1", "m join 1", "m exit 3">>),
     W("timed-storm-990", <<"m create 1", "T1 cur", "T1 csa 12 c0", "T1 mask pthr block 10,12", "T1 set 1", "T1 sw timed 10,12 990", "T1 set 2", "T1 mark end", "m await 1", "m sndu 2 12 thr:1", "m join 1", "m exit 3">>),
     W("timed-storm-h", <<"m create 1", "T1 cur", "T1 sa 12 h0 s none", "T1 mask pthr block 10", "T1 set 1", "T1 sw timed 10 180", "T1 set 2", "T1 mark end", "m await 1", "m sndu 2 12 thr:1", "m join 1", "m exit 3">>),
     W("timed-storm-in", <<"m create 1", "T1 cur", "T1 csa 12 c0", "T1 mask pthr block 10,12", "T1 set 1", "T1 sw timed 10,12 180", "T1 set 2", "T1 mark end", "m await 1", "m sndu 2 12 thr:1", "m join 1", "m exit 3">>),
     W("badtime", On("m", <<"cur", "mask proc block 10", "sw timedbad 10", "snd 10 raise", "sw timedbad 10", "sw timed 10 0", "mark end", "exit 3">>)),
     W("empty", On("m", <<"cur", "sw timed none 5", "mask proc block 10", "snd 10 raise", "sw timed none 5", "sw timed 10 5", "mark end", "exit 3">>)),
     W("rtorder", On("m", <<"cur", "mask proc block 50", "snd 50 queue 1", "snd 50 queue 2", "snd 50 queue 3", "sw info 50", "sw timed 50 100", "sw timednull 50", "sw timed 50 5", "mark end", "exit 3">>)),
     W("blockedother", On("m", <<"cur", "mask proc block 10,12", "signal 12 h0", "snd 12 raise", "snd 10 raise", "sw wait 10", "mask proc unblock 12", "mark end", "exit 3">>)),
     W("two", <<"m create 1", "m create 2", "T1 cur", "T1 mask pthr block 10", "T1 set 1", "T1 sw wait 10", "T1 mark end", "T2 cur", "T2 mask pthr block 10", "T2 set 1", "T2 sw info 10", "T2 mark end",
        "m await 1 2", "m snd 10 thr:2", "m snd 10 thr:1", "m join 1", "m join 2", "m exit 3">>),
     W("blocksd", <<"m create 1", "T1 cur", "T1 mask pthr block all", "T1 blocksd", "T1 set 1", "T1 sw timed !9,19 300", "T1 unblocksd", "T1 set 2", "T1 sw timed !9,19 30000", "m await 1", "m exit 3">>),
     W("forked", <<"m cur", "m mask proc block 10", "m fork K1", "m reap", "K1 snd 10 raise", "K1 sw wait 10", "K1 create 1", "T1 cur", "T1 set 1", "T1 sw wait 10", "K1 await 1", "K1 exit 2", "m exit 3">>) >>
WaitReps == [i \in DOMAIN Wait |-> IF Wait[i].id \in {"sw-exit-" \o WApis[k] : k \in 1..6} THEN Reps(Wait[i], 3) ELSE Wait[i]]

All == Disp \o Inherit \o Deliver \o Stops \o Pending \o Nest \o JumpX \o Fatal \o MaskPair \o MaskArgs \o Shoot \o MaskCfg \o WaitReps
       \o Debug(Disp, 16) \o Debug(Deliver, 29) \o Debug(Fatal, 19) \o Debug(MaskPair, 11) \o Debug(MaskArgs, 2) \o Debug(WaitReps, 9)
ASSUME Emit(All) /\ PrintT(<<"GENERATED", Len(All)>>)
=============================================================================
