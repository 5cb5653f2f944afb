------------------------------- MODULE GenStep -------------------------------
(* Preemption scenarios: one thread is stopped after its k-th instruction   *)
(* inside the library, for every k, and something interferes there: another *)
(* thread runs to a given point, or a signal arrives.  Operations times     *)
(* interferences.                                                           *)
EXTENDS GenBase
(* step: at most so many values of k in a quick run *)
P(id, cap, lines, any) == [Sc("step-" \o id, lines, any) EXCEPT !.step = cap, !.mode = "dyn"]
On(c, ls) == [i \in DOMAIN ls |-> c \o " " \o ls[i]]
E4 == <<"C02", "C03", "C04", "C05">>
(* an operation: name, setup by main, stepped operations, lines of other contexts, what follows, is it the last thing the thread does *)
O(n, pre, op, other, post, last, any) == [n |-> n, pre |-> pre, op |-> op, other |-> other, post |-> post, last |-> last, any |-> any]
OpsAny ==
  << O("create", <<>>, <<"create 2">>, <<"T2 q", "T2 ret 2">>, <<"join 2">>, FALSE, E4 \o <<"C06">>),
     O("fork", <<>>, <<"fork K2">>, <<"K2 create 20", "T20 ret 1", "K2 join 20", "K2 _exit 4">>, <<"reap">>, FALSE, E4 \o <<"C10", "C11">>),
     O("sa", <<>>, <<"sa 14 h0 - none", "sa 14 dfl - none">>, <<>>, <<>>, FALSE, E4 \o <<"C15">>),
     O("mask", <<>>, <<"mask proc block 14", "mask pthr unblock 14">>, <<>>, <<>>, FALSE, E4 \o <<"C18">>),
     O("sw", <<"m mask proc block 14">>, <<"snd 14 raise", "sw wait 14">>, <<>>, <<>>, FALSE, E4 \o <<"C19">>),
     O("sd", <<>>, <<"blocksd", "unblocksd">>, <<>>, <<>>, FALSE, E4),
     O("bc", <<"m sa 12 h0 - none">>, <<"bcast 12">>, <<>>, <<>>, FALSE, E4 \o <<"C23">>),
     O("sys", <<>>, <<"system exit~3 768">>, <<>>, <<>>, FALSE, E4 \o <<"C13">>),
     O("xfail", <<>>, <<"exec v @D@/nothing 2 keep 2">>, <<>>, <<>>, FALSE, E4 \o <<"C12">>),
     O("exec", <<>>, <<"exec v @H@/vfprobe 2 keep 0">>, <<>>, <<>>, FALSE, E4 \o <<"C12">>),
     O("dl", <<>>, <<"dlopen 1 @H@/p1.so n 1", "dlclose 1">>, <<>>, <<>>, FALSE, E4 \o <<"C20">>),
     O("raise", <<"m sa 12 h1 - none">>, <<"snd 12 raise">>, <<>>, <<>>, FALSE, E4 \o <<"C16">>),
     O("q", <<>>, <<"q">>, <<>>, <<>>, FALSE, E4 \o <<"C07">>),
     O("dis", <<>>, <<"disable", "create 3", "enable">>, <<"T3 ret 1">>, <<"join 3">>, FALSE, E4 \o <<"C09">>),
     O("exit", <<>>, <<"exit 3">>, <<>>, <<>>, TRUE, E4),
     O("_exit", <<>>, <<"_exit 3">>, <<>>, <<>>, TRUE, E4),
     O("pexit", <<>>, <<"pexit 3">>, <<>>, <<>>, TRUE, E4),
     O("ret", <<>>, <<"ret 4">>, <<>>, <<>>, TRUE, E4) >>
(* an interference: name, how the step hands over, setup by main, lines *)
I(n, act, pre, lines, any) == [n |-> n, act |-> act, pre |-> pre, lines |-> lines, any |-> any]
Peer == "yield 1 2 80"
Ints ==
  << I("exit", Peer, <<>>, <<"T9 await 1", "T9 exit 5">>, <<>>),
     I("_exit", Peer, <<>>, <<"T9 await 1", "T9 _exit 5">>, <<>>),
     I("end", Peer, <<>>, <<"T9 await 1", "T9 ret 1", "cb:fini_thread@9 set 2">>, <<>>),
     I("create", Peer, <<>>, <<"T9 await 1", "T9 create 10", "T10 set 2", "T10 ret 1", "T9 join 10", "T9 ret 1">>, <<"C06">>),
     I("fork", Peer, <<>>, <<"T9 await 1", "T9 fork K9", "T9 set 2", "T9 reap", "T9 ret 1", "K9 create 21", "T21 ret 1", "K9 join 21", "K9 _exit 2">>, <<"C11">>),
     I("bc", Peer, <<"m sa 12 h0 - none">>, <<"T9 await 1", "T9 bcast 12", "T9 set 2", "T9 ret 1">>, <<"C23">>),
     I("term", Peer, <<>>, <<"T9 await 1", "T9 fatal 15 tkill">>, <<"C17">>),
     I("exec", Peer, <<>>, <<"T9 await 1", "T9 exec v @H@/vfprobe 2 keep 0">>, <<"C12">>),
     I("sys", Peer, <<>>, <<"T9 await 1", "T9 system exit~2 512", "T9 set 2", "T9 ret 1">>, <<"C13">>),
     I("sd", Peer, <<>>, <<"T9 await 1", "T9 blocksd", "T9 set 2", "T9 ms 30", "T9 unblocksd", "T9 ret 1">>, <<>>),
     I("fsig", "fsig 15", <<>>, <<"T9 ret 1">>, <<"C17">>),
     I("h-_exit", "sig 10", <<"m sa 10 h0 - none">>, <<"h:10 _exit 6", "T9 ret 1">>, <<>>),
     I("h-exit", "sig 10", <<"m sa 10 h0 - none">>, <<"h:10 exit 6", "T9 ret 1">>, <<>>),
     I("h-fork", "sig 10", <<"m sa 10 h0 - none">>, <<"h:10 fork K8", "h:10 reap", "K8 _exit 2", "T9 ret 1">>, <<"C10", "C11">>),
     I("h-q", "sig 10", <<"m csa 10 c0">>, <<"c:10 q", "c:10 bcast 23", "c:10 blocksd", "c:10 unblocksd", "T9 await 1", "T9 ret 1">>, <<"C07", "C23">>),
     I("h-exec", "sig 10", <<"m sa 10 h0 - none">>, <<"h:10 exec v @H@/vfprobe 2 keep 0", "T9 ret 1">>, <<"C12">>) >>
M(o, i, cap) ==
  P("m-" \o o.n \o "-" \o i.n, cap, o.pre \o i.pre \o <<"m cur", "m create 9">> \o i.lines \o <<"m step @K@ " \o i.act>> \o On("m", o.op) \o
     (IF o.last THEN <<"cb:fini_process set 1">> ELSE <<"m unstep", "m set 1">> \o On("m", o.post) \o <<"m join 9", "m exit 3">>) \o o.other, o.any \o i.any)
T(o, i, cap) ==
  P("t-" \o o.n \o "-" \o i.n, cap, o.pre \o i.pre \o <<"m create 9", "m create 1">> \o i.lines \o <<"T1 cur", "T1 step @K@ " \o i.act>> \o On("T1", o.op) \o
     (IF o.last THEN <<>> ELSE <<"T1 unstep", "T1 set 1">> \o On("T1", o.post) \o <<"T1 ret 1">>) \o o.other \o
     <<"m join 1", "m set 1", "m join 9", "m exit 3">>, o.any \o i.any)
(* the new thread's side of its creation: from its first instruction to its start routine *)
C(i, cap) ==
  P("c-" \o i.n, cap, i.pre \o <<"m create 9">> \o i.lines \o <<"m cstep @K@ " \o i.act, "m create 1", "T1 unstep", "T1 set 1", "T1 q", "T1 ret 1", "m join 1", "m join 9", "m exit 3">>, E4 \o i.any)
(* from init-thread's return to its start routine *)
B(i, cap) ==
  P("b-" \o i.n, cap, i.pre \o <<"m create 9">> \o i.lines \o <<"cb:init_thread#2 step @K@ " \o i.act, "m create 1", "T1 unstep", "T1 set 1", "T1 ret 1", "m join 1", "m join 9", "m exit 3">>, E4 \o i.any)
(* the way out of a thread that is shot down: from its fini-thread callback *)
D(i, cap) ==
  P("d-" \o i.n, cap, i.pre \o <<"m create 9">> \o i.lines \o <<"cb:fini_thread@1 step @K@ " \o i.act, "m create 1", "T1 set 5", "T1 park sem", "m await 5", "m exit 3">>, E4 \o i.any)
(* a disposition is changed while that very signal arrives, here or in another thread *)
Same ==
  LET pre == <<"m sa 14 h0 - none">>
      op == <<"sa 14 h1 s 12", "sa 14 h0 - none", "sa 14 h1 sn 10,12">>
      A == <<"C15", "C16">> IN
  << P("same-self", 120, pre \o <<"m create 9", "T9 ret 1", "m cur", "m step @K@ sig 14">> \o On("m", op) \o <<"m unstep", "m join 9", "m exit 3">>, A),
     P("same-peer", 120, pre \o <<"m create 9", "T9 cur", "T9 await 1", "T9 snd 14 raise", "T9 set 2", "T9 ret 1", "m cur", "m step @K@ " \o Peer>> \o On("m", op) \o <<"m unstep", "m set 1", "m join 9", "m exit 3">>, A),
     P("same-client", 60, <<"m sa 14 h0 - none", "m csa 14 c0">> \o <<"m create 9", "T9 ret 1", "m cur", "m step @K@ sig 14">> \o On("m", op) \o <<"m unstep", "m join 9", "m exit 3">>, A) >>
(* a thread ends while another creates threads: the record of one thread is never used for two *)
Reuse ==
  LET tail(j) == <<"m create 12", "T12 q", "T12 set 4", "T12 await 3", "T12 ret 1", "m create 13", "T13 q", "T13 set 5", "T13 await 3", "T13 ret 1", "m await 4", "m await 5", "m set 3", "m join 12", "m join 13">> \o j \o <<"m set 6", "m join 9", "m exit 3">>
      peer == <<"T9 await 1", "T9 create 10", "T10 set 7", "T10 await 3", "T10 q", "T10 ret 1", "T9 await 7", "T9 create 11", "T11 set 2", "T11 await 3", "T11 q", "T11 ret 1", "T9 await 6", "T9 join 10", "T9 join 11", "T9 ret 1">>
      A == <<"C03", "C04", "C05", "C06", "C07", "C08">> IN
  << P("reuse-ret", 200, <<"m create 8", "T8 ret 1", "m join 8", "m create 9", "m create 1">> \o peer \o <<"T1 cur", "T1 step @K@ " \o Peer, "T1 ret 4", "m join 1", "m set 1">> \o tail(<<>>), A),
     P("reuse-create", 200, <<"m create 8", "T8 ret 1", "m create 7", "T7 ret 1", "m join 8", "m join 7", "m create 9">> \o peer \o <<"m cur", "m step @K@ " \o Peer, "m create 1", "m unstep", "T1 q", "T1 await 3", "T1 q", "T1 ret 4", "m set 1">> \o tail(<<"m join 1">>), A) >>
Skip(o, i) == i.n = "x"
Cap(o, i) == CASE OpsAny[o].n = "pexit" -> 6 [] OpsAny[o].n = "sys" -> 10 [] OTHER -> 30
All ==
  Flat([a \in DOMAIN OpsAny |-> Flat([b \in DOMAIN Ints |-> IF Skip(OpsAny[a], Ints[b]) THEN <<>> ELSE
     << M(OpsAny[a], Ints[b], Cap(a, b)), T(OpsAny[a], Ints[b], Cap(a, b)) >>])]) \o
  Flat([b \in DOMAIN Ints |-> << C(Ints[b], 60), B(Ints[b], 30), D(Ints[b], 30) >>]) \o Same \o Reuse
ASSUME Emit(All) /\ PrintT(<<"GENERATED", Len(All)>>)
=============================================================================
