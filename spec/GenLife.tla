------------------------------- MODULE GenLife -------------------------------
(* Scenarios for process, thread, fork and exit handling.                   *)
EXTENDS GenBase

Parks == <<"spin", "sleep", "pause", "mutex", "cond", "sem", "read", "sigwait", "sigwaitall", "sigwaitinfo",
           "sigtimed", "mask", "maskp", "suspend", "yield">>
MainEnds == <<"ret 3", "exit 3", "_exit 3", "_Exit 3", "pexit 0", "exec v @H@/vfprobe 2 keep">>
ThrEnds == <<"exit 3", "_exit 3", "_Exit 3", "exec v @H@/vfprobe 2 keep">>
XX(s) == [s EXCEPT !.exp.xok = 1]
EX == <<"C02", "C03", "C05">>

(* --- start of the process --- *)
Start ==
  << Sc("start-plain", <<"m q", "m ret 0">>, <<"C01">>) >> \o
  [i \in 1..6 |-> [Sc("start-args" \o N(i), <<"m q", "m ret " \o N(i)>>, <<"C01">>) EXCEPT
      !.args = SubSeq(<<"a", "", "b c", "--x=1", "", "zz">>, 1, i)]] \o
  [i \in 1..3 |-> [Sc("start-env" \o N(i), <<"m q", "m exit " \o N(i)>>, <<"C01">>) EXCEPT
      !.env = SubSeq(<< <<"A", "">>, <<"B", "x=y">>, <<"LONGVAR", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa">> >>, 1, i)]] \o
  LET E(id, l) == Sc("early-" \o id, l, <<"C01">>) IN
  << E("thread", <<"E create 1", "E join 1", "m q", "m create 2", "m join 2", "m ret 0">>),
     E("thread-live", <<"E create 1", "T1 set 1", "T1 park spin", "m await 1", "m q", "m exit 2">>),
     E("threads3", <<"E create 1", "E create 2", "E create 3", "T* q", "E joinn 1 3", "m q", "m exit 2">>),
     E("fork", <<"E fork K1", "E reap", "K1 q early", "K1 exit 3", "m q", "m exit 2">>),
     E("fork2", <<"E fork K1", "E fork K2", "E reap", "K1 _exit 3", "K2 exit 4", "m exit 2">>),
     E("fork-cont", <<"E fork K1", "K1 cont", "m exit 2">>),
     E("fork-thread", <<"E fork K1", "E reap", "K1 create 1", "K1 join 1", "K1 exit 1", "m create 2", "m join 2", "m exit 2">>),
     E("thread-fork", <<"E create 1", "T1 fork K1", "T1 reap", "K1 exit 6", "E join 1", "m exit 2">>),
     E("ign", <<"E initialize", "E disable", "E create 1", "E join 1", "E enable", "T1 q", "E create 3", "E join 3", "m create 2", "m join 2", "m exit 2">>),
     E("ign2", <<"E initialize", "E disable", "E create 1", "T1 set 1", "T1 park sem", "m await 1", "m create 3", "m join 3", "m enable", "m create 2", "m join 2", "m exit 2">>),
     E("ign-exit", <<"E initialize", "E disable", "E create 1", "T1 exit 3", "E park sem">>),
     E("blocksd", <<"E create 1", "T1 await 1", "T1 exit 3", "E blocksd", "E set 1", "E ms 5", "E unblocksd", "E park sem">>),
     E("initialize", <<"E initialize", "m q", "m exit 2">>),
     E("initialize2", <<"E initialize", "E create 1", "E join 1", "m initialize", "m exit 2">>),
     E("exit", <<"E exit 5">>), E("_exit", <<"E _exit 5">>),
     E("thread-exit", <<"E create 1", "T1 set 1", "T1 park sleep", "E await 1", "E exit 5">>),
     XX(E("exec", <<"E exec v @H@/vfprobe 3 keep">>)),
     E("execfail", <<"E exec v /nonexistent 3 keep", "m q", "m exit 2">>),
     Sc("init-again", <<"m initialize", "m q", "m create 1", "m join 1", "T1 initialize", "m exit 1">>, <<"C01">>),
     Sc("cb-initialize", <<"cb:init_process initialize", "cb:init_library initialize", "m q", "m exit 1">>, <<"C01">>),
     Sc("reexec", <<"m exec v @APP@ 2 keep", "arg1 q", "arg1 create 1", "arg1 join 1", "arg1 exit 9">>, <<"C01", "C12">>) >>

(* --- every way to end, with one other thread in every kind of wait --- *)
(* main's pthread_exit leaves the process alive: those threads must end by themselves *)
Leavable == {"spin", "yield", "mask", "maskp"}
PX(i) == IF MainEnds[i] = "pexit 0" THEN <<"cb:fini_process unpark">> ELSE <<>>
EndMain ==
  Flat([i \in DOMAIN MainEnds |-> Flat([j \in DOMAIN Parks |->
    IF MainEnds[i] = "pexit 0" /\ Parks[j] \notin Leavable THEN <<>> ELSE
    << XX(Sc("end-main-" \o N(i) \o "-" \o Parks[j],
       <<"m create 1", "T1 set 1", "T1 park " \o Parks[j], "m await 1", "m us 300", "m " \o MainEnds[i]>> \o PX(i), EX)) >>])])
EndThr ==
  Flat([i \in DOMAIN ThrEnds |-> [j \in DOMAIN Parks |->
    XX(Sc("end-thr-" \o N(i) \o "-" \o Parks[j],
       <<"m create 1", "m create 2", "T2 set 1", "T2 park sem", "T1 await 1", "T1 us 300",
         "T1 " \o ThrEnds[i], "m set 2", "m park " \o Parks[j]>>, EX))]])
EndSimple ==
  Flat([i \in DOMAIN MainEnds |->
    << XX(Sc("end-single-" \o N(i), <<"m atexit 0", "m " \o MainEnds[i]>>, EX)),
       XX(Sc("end-atexit2-" \o N(i), <<"m atexit 0", "m atexit 1", "m create 1", "m join 1", "m " \o MainEnds[i]>>, EX)),
       XX(Sc("end-done-thr-" \o N(i), <<"m createn 1 3", "m joinn 1 3", "m " \o MainEnds[i]>>, EX)),
       XX(Sc("end-blockfini-" \o N(i), <<"m create 1", "m create 2", "T1 set 1", "T1 park spin", "T2 set 1", "T2 park yield", "m await 1 2",
                "cb:fini_thread ms 30", "cb:fini_process ms 10", "cb:begin_exit ms 5", "m " \o MainEnds[i]>> \o PX(i), EX)) >>]) \o
  [i \in 1..8 |-> Sc("end-status" \o N(i), << <<"m exit 0", "m exit 255", "m exit 256", "m exit 259", "m exit -1", "m ret 77", "m _exit 300", "m _Exit 128">>[i] >>, EX)] \o
  [i \in DOMAIN ThrEnds |-> XX(Sc("end-thr-joined-" \o N(i), <<"m create 1", "m atexit 0", "T1 " \o ThrEnds[i], "m join 1", "m exit 9">>, EX))] \o
  [i \in DOMAIN ThrEnds |-> XX(Sc("end-thr-atexit-" \o N(i), <<"m create 1", "T1 atexit 1", "T1 " \o ThrEnds[i], "m park pause">>, EX))] \o
  << Sc("end-det", <<"m create 1 det", "T1 set 1", "T1 park read", "m await 1", "m exit 4">>, EX),
     Sc("end-many", <<"m createn 1 12", "T* set 1", "T* park sem", "m await 1 12", "m exit 4">>, EX),
     Sc("end-many-spin", <<"m createn 1 9", "T* set 1", "T* park yield", "T3 set 1", "T3 ms 2", "T3 exit 6", "m await 1 9", "m park mutex">>, EX),
     Sc("end-mixed", <<"m createn 1 6", "T1 ret 1", "T2 pexit 2", "T3 set 1", "T3 park cond", "T4 set 1", "T4 park mask", "T5 set 1", "T5 park sigwaitall",
                       "T6 set 1", "T6 park read", "m await 1 4", "m exit 4">>, EX),
     Sc("end-chain", <<"m create 1", "T1 create 2", "T2 create 3", "T3 set 1", "T* park sleep", "T1 park sem", "T2 park spin", "T3 park pause", "m await 1", "m _exit 4">>, EX),
     Sc("end-nulldata", <<"opt nulldata 1", "m create 1", "T1 set 1", "T1 park sem", "m await 1", "m exit 4">>, EX) >>
EndNull == [i \in {1} |-> [EndSimple[Len(EndSimple)] EXCEPT !.exp.nulldata = 1]]

(* --- exit requested again: from callbacks, handlers and other threads --- *)
AgainOps == <<"exit 7", "_exit 7", "_Exit 7">>
Again ==
  Flat([i \in DOMAIN AgainOps |-> Flat([j \in {1, 2, 3, 4, 5} |->
    LET e == MainEnds[j] IN
    << Sc("again-be-" \o N(i) \o N(j), <<"cb:begin_exit " \o AgainOps[i], "m atexit 0", "m " \o e>>, EX),
       Sc("again-fp-" \o N(i) \o N(j), <<"cb:fini_process " \o AgainOps[i], "m atexit 0", "m " \o e>>, EX),
       Sc("again-at-" \o N(i) \o N(j), <<"m atexit 0", "A0 " \o AgainOps[i], "m " \o e>>, EX),
       Sc("again-fp-thr-" \o N(i) \o N(j), <<"cb:fini_process " \o AgainOps[i], "m create 1", "T1 set 1", "T1 park spin", "m await 1", "m " \o e>>, EX),
       Sc("again-at-thr-" \o N(i) \o N(j), <<"m atexit 1", "A1 " \o AgainOps[i], "m create 1", "T1 set 1", "T1 park spin", "m await 1", "m " \o e>> \o PX(j), EX) >>])]) \o
  Flat([i \in DOMAIN AgainOps |-> [j \in DOMAIN AgainOps |->
     Sc("again-thr-fp-" \o N(i) \o N(j), <<"cb:fini_process " \o AgainOps[i], "m create 1", "T1 " \o AgainOps[j], "m park spin">>, EX)]]) \o
  << Sc("again-fl", <<"cb:fini_library exit 7", "m exit 3">>, EX) >>

Conc ==
  Flat([i \in DOMAIN ThrEnds |-> Flat([j \in DOMAIN ThrEnds |->
    << Reps(XX(Sc("conc2-" \o N(i) \o N(j), <<"m create 1", "m create 2", "T1 set 1", "T1 await 1 2", "T1 " \o ThrEnds[i],
             "T2 set 1", "T2 await 1 2", "T2 " \o ThrEnds[j], "m park sleep">>, EX)), 2),
       Reps(XX(Sc("concm-" \o N(i) \o N(j), <<"m create 1", "T1 set 1", "T1 await 1 2", "T1 " \o ThrEnds[i],
             "m set 1", "m await 1 2", "m " \o MainEnds[j]>>, EX)), 2),
       XX(Sc("conc-slow-" \o N(i) \o N(j), <<"m create 1", "T1 set 1", "T1 await 2", "T1 " \o ThrEnds[i],
             "cb:begin_exit set 2", "cb:begin_exit ms 8", "cb:fini_process ms 8", "m await 1", "m " \o MainEnds[j]>>, EX)),
       XX(Sc("conc-fp-" \o N(i) \o N(j), <<"m create 1", "T1 blocksd", "T1 set 1", "T1 await 2", "T1 unblocksd", "T1 " \o ThrEnds[i],
             "cb:begin_exit set 2", "cb:fini_process ms 8", "m await 1", "m " \o MainEnds[j]>>, EX)) >>])]) \o
  Flat([j \in 1..5 |-> <<
     Reps(Sc("conc5-" \o N(j), <<"m createn 1 5", "T* set 1", "T* await 1 6", "T* exit 9", "m set 1", "m await 1 6", "m " \o MainEnds[j]>>, EX), 3),
     Sc("conc-ret-" \o N(j), <<"m createn 1 4", "T* set 1", "T* await 2", "T* ret 1", "cb:begin_exit set 2", "m await 1 4", "m " \o MainEnds[j]>>, EX),
     Reps(Sc("conc-churn-" \o N(j), <<"m createn 1 4", "T* set 1", "T* repeat 30 R", "R create %50", "R join %50", "TX ret 1", "m await 1 4", "m us 500", "m " \o MainEnds[j]>>, EX), 1) >>])

(* main calls pthread_exit: the end callbacks run, the process lives on *)
Pexit ==
  << Sc("pexit-1", <<"m pexit 0">>, EX),
     Sc("pexit-thr-ret", <<"m create 1", "T1 set 1", "T1 ms 20", "T1 ret 5", "m await 1", "m pexit 0">>, EX),
     Sc("pexit-thr-exit", <<"m create 1", "T1 set 1", "T1 ms 20", "T1 exit 5", "m await 1", "m pexit 0">>, EX),
     Sc("pexit-thr-_exit", <<"m create 1", "T1 set 1", "T1 ms 20", "T1 _exit 5", "m await 1", "m pexit 0">>, EX),
     Sc("pexit-thr-pexit", <<"m create 1", "m create 2", "T* set 1", "T* ms 20", "T* pexit 5", "m await 1 2", "m pexit 0">>, EX),
     Sc("pexit-thr-create", <<"m create 1", "T1 set 1", "T1 ms 20", "T1 create 2", "T1 us 500", "T1 join 2", "T1 ret 5", "m await 1", "m pexit 0">>, EX),
     Sc("pexit-fork", <<"m create 1", "T1 set 1", "T1 ms 20", "T1 fork K1", "T1 reap", "T1 ret 5", "K1 q", "K1 exit 6", "m await 1", "m pexit 0">>, <<"C11">>),
     Sc("pexit-fork2", <<"m create 1", "T1 set 1", "T1 ms 20", "T1 fork K1", "T1 reap", "T1 exit 5", "K1 create 9", "K1 join 9", "K1 _exit 6", "T9 q", "T9 ret 2", "m await 1", "m pexit 0">>, <<"C11">>),
     XX(Sc("pexit-forkexec", <<"m create 1", "T1 set 1", "T1 ms 20", "T1 fork K1", "T1 reap", "T1 ret 5", "K1 exec v @H@/vfprobe 2 keep", "m await 1", "m pexit 0">>, <<"C11">>)) >>

(* --- threads --- *)
TA == <<"C04", "C08">>
ThrEndsN == <<"ret 17", "pexit 18", "ret 0", "pexit -1">>
Attrs == <<"null", "small", "big", "share", "fifo", "det">>
Thr ==
  Flat([i \in DOMAIN ThrEndsN |-> Flat([j \in 1..5 |->
    << Sc("thr-" \o N(i) \o "-" \o Attrs[j], <<"m create 1 " \o Attrs[j], "T1 q", "T1 " \o ThrEndsN[i], "m join 1", "m q", "m exit 0">>, TA),
       Sc("thr2-" \o N(i) \o "-" \o Attrs[j], <<"m create 1 " \o Attrs[j], "m create 2 " \o Attrs[j], "T* q", "T* create 3", "T* " \o ThrEndsN[i],
           "T2 q", "T2 " \o ThrEndsN[i], "T3 q", "T3 ret 4", "m join 1", "m join 2", "m join 3", "m exit 0">>, TA) >>])]) \o
  Flat([j \in 1..6 |-> <<
     Sc("thr-err-" \o Attrs[j], <<"m create 1 huge", "m create 2 " \o Attrs[j], "m ms 2", "m create 3 huge", "m q", "m exit 0">>, TA),
     Sc("thr-err2-" \o Attrs[j], <<"opt stack 65536", "opt tinfo 1", "m create 1 huge", "m tinfo", "m create 2 " \o Attrs[j], "m ms 2", "m tinfo", "m exit 0">>, TA),
     Sc("thr-stack-" \o Attrs[j], <<"opt stack 1048576", "m create 1 " \o Attrs[j], "m create 2 " \o Attrs[j], "T* q", "T* ret 4", "m ms 3", "m exit 0">>, TA),
     Sc("thr-shrink-" \o Attrs[j], <<"opt stack -16384", "m create 1 " \o Attrs[j], "m create 2 " \o Attrs[j], "T* q", "T* ret 4", "m ms 3", "m exit 0">>, TA),
     Sc("thr-badstack-" \o Attrs[j], <<"opt stackset 1000", "m create 1 " \o Attrs[j], "m create 2 " \o Attrs[j], "T* q", "T* ret 4", "m ms 3", "m exit 0">>, TA) >>]) \o
  [j \in {1} |-> [Sc("thr-stacksize", <<"opt stack 1048576", "m create 1 small", "m create 2", "T* ret 4", "m join 1", "m join 2", "m create 3 small", "m join 3", "m exit 0">>, TA) EXCEPT !.exp.stack = 1100]] \o
  Flat([i \in DOMAIN Parks |-> IF Parks[i] \in {"mutex", "spin", "sleep", "yield", "mask", "maskp", "sigwaitall", "sigwait", "sigtimed", "sigwaitinfo", "suspend"} THEN <<>> ELSE
     << Sc("cancel-" \o Parks[i], <<"m create 1", "T1 set 1", "T1 park " \o Parks[i], "m await 1", "m cancel 1", "m join 1", "m exit 0">>, TA) >>]) \o
  << Sc("cancel-async", <<"m create 1", "T1 canceltype 1", "T1 set 1", "T1 park spin", "m await 1", "m cancel 1", "m join 1", "m exit 0">>, TA),
     Sc("cancel-many", <<"m createn 1 6", "T* set 1", "T* park sem", "m await 1 6", "m cancel 2", "m cancel 4", "m join 2", "m cancel 1", "m join 4", "m join 1", "m exit 0">>, TA),
     Sc("cancel-fini", <<"m create 1", "cb:fini_thread ms 3", "T1 set 1", "T1 park sem", "m await 1", "m cancel 1", "m join 1", "m exit 0">>, TA),
     Sc("cancel-exit", <<"m createn 1 3", "T* set 1", "T* park sem", "m await 1 3", "m cancel 1", "m cancel 2", "m cancel 3", "m exit 0">>, TA),
     Sc("thr-tsd", <<"m create 1", "T1 tsd", "T1 q", "T1 ret 4", "m join 1", "m create 2", "T2 tsd", "T2 pexit 3", "m join 2", "m exit 0">>, TA),
     Sc("thr-tsd-reuse", <<"m tsd", "m create 1", "T1 tsd", "T1 ret 4", "D1 set 1", "D1 await 2", "m await 1", "m create 2", "T2 q", "T2 set 3", "T2 await 4", "T2 q", "T2 ret 2", "m await 3", "m set 2", "m join 1", "m set 4", "m join 2", "m exit 0">>, TA),
     Sc("thr-tsd-reuse-dis", <<"m tsd", "m create 1", "T1 tsd", "T1 ret 4", "D1 set 1", "D1 await 2", "D1 disable", "D1 blocksd", "m await 1", "m create 2", "T2 set 3", "T2 await 4", "T2 create 3", "T3 q", "T3 set 5", "T3 park sleep", "T2 await 5", "T2 park sleep", "m await 3", "m set 2", "m join 1", "m set 4", "m await 5", "m exit 3">>, TA \o <<"C05">>),
     Sc("thr-tsd-reuse-exit", <<"m tsd", "m create 1", "T1 tsd", "T1 ret 4", "D1 set 1", "D1 await 2", "D1 exit 6", "m await 1", "m create 2", "T2 set 3", "T2 park sleep", "m await 3", "m set 2", "m park sleep">>, TA \o <<"C02", "C05">>),
     Sc("thr-tsd2", <<"m create 1", "m join 1", "m create 2", "T1 tsd", "T1 ret 4", "T2 tsd", "T2 set 1", "T2 await 2", "T2 ret 1", "m await 1", "m create 3", "T3 tsd", "T3 ret 1", "m join 3", "m set 2", "m join 2", "m exit 0">>, <<"C04", "C08", "C07">>),
     Sc("thr-seq", <<"m repeat 40 R", "R create 1", "R create 2", "R join 1", "R join 2", "T1 q", "T2 q", "m exit 0">>, TA),
     Sc("thr-par", <<"m createn 1 40", "T* q", "T* ret 3", "m joinn 1 40", "m createn 41 80", "m joinn 41 80", "m q", "m exit 0">>, TA),
     Sc("thr-live", <<"m createn 1 60", "T* set 1", "T* await 2", "T* q", "T* ret 3", "m await 1 60", "m set 2", "m joinn 1 60", "m exit 0">>, TA),
     [Sc("thr-620", <<"m createn 1 620", "T* q", "T* set 1", "T* await 2", "T* q", "T* ret 3", "m await 1 620", "m set 2", "m joinn 1 620", "m create 700", "m join 700", "m exit 0">>, <<"C04", "C07", "C08">>) EXCEPT !.tmo = 30000],
     [Sc("thr-620x", <<"m createn 1 605", "T* set 1", "T* park sem", "T604 set 1", "T604 await 2", "T604 q", "T604 ret 2", "m await 1 605", "m q", "m set 2", "m join 604", "m create 700", "T700 q", "T700 ret 1", "m join 700", "m exit 0">>, <<"C04", "C05", "C07">>) EXCEPT !.tmo = 30000],
     [Thorough(Sc("thr-1300", <<"m createn 1 1300", "T* set 1", "T* await 2", "T* q", "T* ret 3", "m await 1 1300", "m set 2", "m joinn 1 1300", "m create 1400", "m join 1400", "m exit 0">>, <<"C04", "C07", "C08">>)) EXCEPT !.tmo = 60000],
     Sc("thr-churn", <<"m createn 1 8", "T* repeat 12 R", "R create %60", "R us 200", "TX q", "TX ret 1", "m joinn 1 8", "m ms 5", "m exit 0">>, TA),
     Sc("thr-nulldata", <<"opt nulldata 1", "m create 1", "m create 2", "m join 1", "m join 2", "m exit 0">>, TA),
     Sc("thr-detach", <<"m create 1", "m detach 1", "T1 set 1", "T1 ret 2", "m await 1", "m ms 2", "m create 2 det", "T2 set 2", "T2 pexit 1", "m await 2", "m ms 2", "m exit 0">>, TA),
     Sc("thr-tinfo", <<"opt tinfo 1", "m tinfo", "m create 1", "m tinfo", "T1 tinfo", "T1 create 2", "T1 tinfo", "T1 join 2", "m join 1", "m tinfo", "m exit 0">>, TA),
     Sc("thr-slowpost", <<"opt tinfo 1", "cb:post_create ms 4", "m create 1", "T1 ret 2", "m create 2 small", "T2 pexit 5", "m join 1", "m join 2", "m exit 0">>, TA),
     Sc("thr-slowpost2", <<"cb:post_create ms 4", "m create 1 det", "T1 ret 2", "m create 2 det", "T2 create 3", "T2 ret 1", "m ms 4", "m exit 0">>, TA),
     Sc("thr-slowpre", <<"cb:pre_create ms 2", "m create 1", "T1 create 2", "T1 ret 2", "m create 3", "T3 ret 1", "m join 1", "m join 3", "m join 2", "m exit 0">>, TA),
     Sc("thr-slowinit", <<"cb:init_thread ms 3", "m createn 1 4", "T* q", "m joinn 1 4", "m exit 0">>, TA),
     Sc("thr-slowinit-exit", <<"cb:init_thread ms 5", "m createn 1 4", "T* q", "m ms 1", "m exit 0">>, <<"C04", "C05">>) >>
NullFix(s) == IF s.id \in {"thr-nulldata", "end-nulldata"} THEN [s EXCEPT !.exp.nulldata = 1] ELSE s

Query ==
  << Sc("q-all", <<"m q", "cb:at_main q early", "cb:init_thread q", "cb:fini_thread q", "cb:pre_create q", "cb:post_create q", "cb:thr_support q", "m create 1", "T1 q", "T1 create 2", "T1 q", "T1 join 2", "T2 q", "T2 ret 1",
          "m join 1", "m q", "m exit 0">>, <<"C07">>),
     Sc("q-exit", <<"m createn 1 3", "T* set 1", "T* park spin", "cb:fini_thread q", "cb:fini_process q", "cb:begin_exit q", "m await 1 3", "m exit 0">>, <<"C07">>),
     Sc("q-exit-thr", <<"m createn 1 3", "T* set 1", "T* park spin", "T3 set 1", "T3 await 1 3", "T3 q", "T3 exit 1", "cb:fini_thread q", "cb:fini_process q", "m park sem">>, <<"C07">>),
     Sc("q-atexit", <<"m atexit 0", "A0 q", "m create 1", "m join 1", "m exit 0">>, <<"C07">>),
     Sc("q-reuse", <<"m create 1", "T1 q", "T1 ret 1", "m join 1", "m create 2", "m create 3", "T2 q", "T2 set 1", "T2 await 2", "T2 q", "T2 ret 1", "T3 q", "T3 ret 2", "m join 3", "m create 1", "m join 1", "m set 2", "m join 2", "m exit 0">>, <<"C07">>) >>

Ign ==
  LET A == <<"C09">> IN
  << Sc("ign-dis", <<"m disable", "m create 1", "m tinfo", "T1 q", "m join 1", "m enable", "m create 2", "T2 q", "m join 2", "m tinfo", "m exit 0">>, A),
     Sc("ign-first", <<"opt ignore 1", "m create 1", "m tinfo", "T1 q", "m create 2", "T2 q", "m join 1", "m join 2", "m exit 0">>, A),
     Sc("ign-second", <<"opt ignore 2", "m create 1", "m create 2", "m tinfo", "m create 3", "T* q", "m joinn 1 3", "m exit 0">>, A),
     Sc("ign-all", <<"opt ignore 0", "m create 1", "m create 2", "T1 set 1", "T1 park spin", "T2 set 1", "T2 park sem", "m await 1 2", "m tinfo", "m exit 3">>, A),
     Sc("ign-live", <<"m disable", "m create 1", "m enable", "m create 2", "T1 q", "T1 set 1", "T1 park sigwaitall", "T2 set 1", "T2 park sem", "m await 1 2", "m ms 2", "m exit 3">>, A),
     Sc("nest-dis-pre", <<"opt tinfo 1", "cb:pre_create#1 disable", "cb:pre_create#1 create 2", "cb:pre_create#1 enable", "m create 1", "m tinfo", "T* q", "m create 3", "m joinn 1 3", "m exit 3">>, A),
     Sc("nest-dis-post", <<"opt tinfo 1", "cb:post_create#1 disable", "cb:post_create#1 create 2", "cb:post_create#1 enable", "cb:post_create#1 tinfo", "m create 1", "m tinfo", "T* q", "m create 3", "m joinn 1 3", "m exit 3">>, A),
     Sc("nest-dis-sup", <<"opt tinfo 1", "cb:thr_support disable", "cb:thr_support create 2", "cb:thr_support enable", "m create 1", "m tinfo", "T* q", "m create 3", "m joinn 1 3", "m exit 3">>, A),
     Sc("nest-ign-pre", <<"opt tinfo 1", "opt ignore 2", "cb:pre_create#1 create 2", "m create 1", "m tinfo", "T* q", "m create 3", "m joinn 1 3", "m exit 3">>, A),
     Sc("nest-ign-out", <<"opt tinfo 1", "opt ignore 1", "cb:pre_create#1 create 2", "m create 1", "m tinfo", "T* q", "m create 3", "m joinn 1 3", "m exit 3">>, A),
     Sc("nest-pre", <<"opt tinfo 1", "cb:pre_create#1 create 2", "m create 1", "m tinfo", "T* q", "m create 3", "m joinn 1 3", "m exit 3">>, A),
     Sc("nest-post", <<"opt tinfo 1", "cb:post_create#1 create 2", "cb:post_create#1 tinfo", "m create 1", "m tinfo", "T* q", "m create 3", "m joinn 1 3", "m exit 3">>, A),
     Sc("nest-sup", <<"opt tinfo 1", "cb:thr_support create 2", "cb:thr_support q", "m create 1", "m tinfo", "T* q", "m create 3", "m joinn 1 3", "m exit 3">>, A),
     Sc("nest-deep", <<"opt tinfo 1", "cb:pre_create#1 create 2", "cb:pre_create#2 create 3", "cb:pre_create#3 create 4", "m create 1", "m tinfo", "T* q", "m joinn 1 4", "m exit 3">>, A),
     Sc("nest-thr", <<"opt tinfo 1", "cb:pre_create#2 create 3", "m create 1", "T1 create 2", "T1 tinfo", "T* q", "T1 join 2", "T1 join 3", "m join 1", "m exit 3">>, A),
     Sc("nest-initt", <<"opt tinfo 1", "cb:init_thread#1 create 2", "m create 1", "T1 join 2", "T1 tinfo", "T* q", "m join 1", "m exit 3">>, A),
     Sc("nest-initd", <<"opt tinfo 1", "cb:init_thread#1 disable", "cb:init_thread#1 create 2", "cb:init_thread#1 enable", "m create 1", "T1 join 2", "T* q", "m join 1", "m exit 3">>, A),
     Sc("nest-initp", <<"opt tinfo 1", "cb:init_process disable", "cb:init_process create 2", "cb:init_process enable", "m create 1", "T* q", "m join 2", "m join 1", "m exit 3">>, A),
     Sc("nest-atmain", <<"opt tinfo 1", "cb:at_main disable", "cb:at_main create 2", "cb:at_main enable", "m create 1", "T* q", "m join 2", "m join 1", "m exit 3">>, A),
     Sc("nest-fini", <<"cb:fini_thread#1 disable", "cb:fini_thread#1 create 2", "cb:fini_thread#1 enable", "m create 1", "T1 ret 1", "m join 1", "m join 2", "m exit 3">>, A),
     Sc("nest-bexit", <<"cb:begin_exit disable", "cb:begin_exit create 2", "cb:begin_exit join 2", "cb:begin_exit enable", "m create 1", "T1 park sem", "m ms 2", "m exit 3">>, A),
     Sc("nest-fexit", <<"cb:fini_process disable", "cb:fini_process create 2", "cb:fini_process join 2", "cb:fini_process enable", "m create 1", "T1 park sem", "m ms 2", "m exit 3">>, A),
     Sc("nest-fork", <<"cb:post_fork disable", "cb:post_fork create 2", "cb:post_fork enable", "m fork K1", "K1 create 1", "K1 join 1", "K1 exit 4", "m join 2", "m reap", "m create 1", "m join 1", "m exit 3">>, A),
     Sc("nest-prefork", <<"cb:pre_fork#1 disable", "cb:pre_fork#1 create 2", "cb:pre_fork#1 join 2", "cb:pre_fork#1 enable", "m fork K1", "K1 q", "K1 create 1", "K1 join 1", "K1 exit 4", "m reap", "m create 1", "m join 1", "m exit 3">>, A),
     Sc("ign-nested", <<"m disable", "m create 1", "T1 create 2", "T1 join 2", "T1 ret 4", "T2 q", "T2 ret 5", "m join 1", "m enable", "m create 3", "m join 3", "m exit 3">>, A),
     Sc("ign-thr", <<"m create 1", "T1 disable", "T1 create 2", "T1 tinfo", "T2 q", "T2 ret 1", "T1 join 2", "T1 set 1", "T1 await 2", "T1 enable", "T1 create 4", "T4 q", "T4 ret 2", "T1 join 4", "T1 ret 1", "m await 1", "m create 3", "T3 q", "T3 ret 1", "m join 3", "m set 2", "m join 1", "m exit 3">>, A),
     Sc("ign-exit", <<"m disable", "m create 1", "T1 set 1", "T1 exit 5", "m park sem">>, <<"C09", "C03">>),
     Sc("ign-exit2", <<"m disable", "m create 1", "m enable", "m create 2", "T2 set 1", "T2 park spin", "T1 await 1", "T1 _exit 5", "m park sem">>, <<"C09", "C03">>),
     Sc("ign-pexit", <<"m disable", "m create 1", "T1 pexit 4", "m join 1", "m exit 5">>, A),
     Sc("ign-cancel", <<"m disable", "m create 1", "T1 set 1", "T1 park sem", "m await 1", "m cancel 1", "m join 1", "m exit 5">>, A),
     Sc("ign-err", <<"m disable", "m create 1 huge", "m tinfo", "m enable", "m create 2", "m tinfo", "m join 2", "m exit 5">>, A),
     Sc("ign-fork", <<"m disable", "m create 1", "T1 fork K1", "T1 reap", "T1 ret 1", "K1 exit 4", "m join 1", "m exit 5">>, <<"C09", "C11">>),
     Sc("ign-fork2", <<"m disable", "m create 1", "m enable", "m create 2", "T1 fork K1", "T1 reap", "T1 ret 1", "T2 set 1", "T2 park spin", "K1 create 3", "K1 join 3", "T3 ret 1", "K1 exit 4", "m join 1", "m exit 5">>, <<"C09", "C11">>),
     Sc("ign-fork4", <<"m disable", "m create 1", "T1 fork K1", "T1 reap", "T1 ret 1", "K1 q", "K1 create 3", "T3 q", "K1 create 4", "K1 join 3", "K1 join 4", "K1 q", "K1 exit 4", "m join 1", "m exit 5">>, <<"C09", "C11", "C07">>),
     Sc("ign-fork5", <<"m disable", "m create 1", "m enable", "m create 2", "m blocksd", "T2 set 1", "T2 park sem", "T1 await 1", "T1 fork K1", "T1 reap", "T1 ret 1", "K1 q", "K1 create 3", "T3 fork K2", "T3 reap", "K2 q", "K2 exit 2", "K1 join 3", "K1 create 4", "T4 exit 4", "K1 park sem", "m join 1", "m unblocksd", "m exit 5">>, <<"C09", "C11", "C07">>),
     Sc("ign-fork3", <<"m disable", "m fork K1", "m reap", "K1 enable", "K1 create 1", "K1 join 1", "K1 create 2", "K1 join 2", "K1 exit 4", "m exit 5">>, <<"C09", "C11">>),
     Sc("ign-stack", <<"opt stack 1048576", "opt ignore 1", "m create 1 small", "m join 1", "m create 2 small", "m join 2", "m exit 5">>, A),
     Sc("ign-mix", <<"m repeat 10 R", "R disable", "R create 1", "R enable", "R create 2", "R join 1", "R join 2", "R tinfo", "T* q", "m exit 5">>, A) >>

Blk ==
  LET A == <<"C06">> IN
  Flat([j \in 1..5 |->
  << Sc("blk-" \o N(j), <<"m create 1", "T1 blocksd", "T1 set 1", "T1 await 2", "T1 ms 6", "T1 q", "T1 unblocksd", "T1 park spin", "cb:begin_exit set 2", "m await 1", "m " \o MainEnds[j]>> \o PX(j), A),
     Sc("blk-again-" \o N(j), <<"m create 1", "m create 2", "T1 blocksd", "T1 set 1", "T1 await 2", "T1 unblocksd", "T1 us 500", "T1 blocksd", "T1 ms 2", "T1 unblocksd", "T1 park yield",
          "T2 set 1", "T2 park spin", "cb:fini_thread@2 set 2", "m await 1 2", "m " \o MainEnds[j]>> \o PX(j), A),
     Sc("blk-in-" \o N(j), <<"m create 1", "m create 2", "T1 blocksd", "T1 set 1", "T1 await 3", "T1 blocksd", "T1 ms 3", "T1 unblocksd", "T1 park spin",
          "T2 set 1", "T2 park spin", "cb:fini_thread@2 set 3", "m await 1 2", "m " \o MainEnds[j]>> \o PX(j), A),
     Sc("blk-park-" \o N(j), <<"m create 1", "T1 blocksd", "T1 set 1", "T1 await 2", "T1 ms 5", "T1 unblocksd", "T1 park " \o (IF j = 5 THEN "mask" ELSE "sigwaitall"), "cb:begin_exit set 2", "m await 1", "m " \o MainEnds[j]>> \o PX(j), A) >>]) \o
  << Sc("blk-main", <<"m blocksd", "m unblocksd", "m create 1", "m blocksd", "T1 set 1", "T1 await 2", "T1 exit 3", "m await 1", "m set 2", "m ms 8", "m unblocksd", "m park sem">>, A),
     Sc("blk-none", <<"m blocksd", "m unblocksd", "m create 1", "T1 blocksd", "T1 unblocksd", "T1 blocksd", "T1 unblocksd", "T1 ret 1", "m join 1", "m blocksd", "m unblocksd", "m exit 3">>, A),
     Sc("blk-two", <<"m create 1", "m create 2", "T* blocksd", "T* set 1", "T* await 2", "T* ms 5", "T* unblocksd", "T* park yield", "cb:begin_exit set 2", "m await 1 2", "m exit 3">>, A),
     Sc("blk-one", <<"m create 1", "m create 2", "T1 blocksd", "T1 set 1", "T1 await 3", "T1 ms 5", "T1 unblocksd", "T1 park yield", "T2 set 1", "T2 park sem", "cb:fini_thread@2 set 3", "m await 1 2", "m exit 3">>, A),
     Sc("blk-self", <<"m create 1", "T1 blocksd", "T1 unblocksd", "T1 exit 3", "m park sem">>, A) >>

(* a thread that ends inside its blocked window is gone: no fini-thread, and nothing waits for it or signals it *)
Many(k, x) == Flat([i \in 1..k |-> <<x \o N(i)>>])
BlkEnd ==
  LET A == <<"C06", "C03">> IN
  Flat([j \in 1..5 |-> Flat([i \in 1..3 |->
    << Sc("blk-end-" \o N(i) \o N(j), Many(14, "m create ") \o <<"T* blocksd", "T* set 1", "T* await 2", "T* " \o <<"ret 5", "pexit 5", "park sem">>[i], "m await 1 14", "m set 2">>
          \o (IF i = 3 THEN Many(14, "m cancel ") ELSE <<>>) \o Many(14, "m join ") \o <<"m create 20", "T20 set 3", "T20 park yield", "m await 3", "m " \o MainEnds[j]>> \o PX(j), A) >>])]) \o
  \* a thread cancelled in (or leaving from) its init-thread never starts; its place in memory is used again
  Flat([i \in 1..2 |-> Flat([k \in 1..4 |->
    << Sc("init-end-" \o N(i) \o N(k), <<"m create 1", "cb:init_thread#1 set 1", "cb:init_thread#1 " \o <<"park sem", "pexit 7">>[i], "m await 1">> \o (IF i = 1 THEN <<"m cancel 1">> ELSE <<>>)
          \o <<"m join 1", "m create 2", "T2 q", "T2 " \o <<"exit 3", "_exit 4", "fatal 15 raise", "ret 2">>[k]>> \o (IF k = 4 THEN <<"m join 2", "m exit 1">> ELSE <<"m park sem">>), <<"C05", "C03">>),
       Sc("init-endn-" \o N(i) \o N(k), <<"m createn 1 14", "cb:init_thread set 1", "cb:init_thread " \o <<"park sem", "pexit 7">>[i], "m await 1 14">> \o (IF i = 1 THEN Many(14, "m cancel ") ELSE <<>>)
          \o Many(14, "m join ") \o <<"m " \o <<"exit 3", "_exit 4", "fatal 15 raise", "ret 2">>[k]>>, <<"C05", "C03">>) >>])])

(* long real times: a slow fini-thread or a long block is waited for; a block that never ends is not *)
Slow ==
  << Long(Sc("slow-fini", <<"m create 1", "m create 2", "T* set 1", "T* park spin", "cb:fini_thread@1 ms 12500", "m await 1 2", "m exit 3">>, <<"C05", "C03">>)),
     Long(Dyn(Sc("slow-blk", <<"m create 1", "T1 blocksd", "T1 set 1", "T1 await 2", "T1 ms 4000", "T1 unblocksd", "T1 park spin", "cb:begin_exit set 2", "m await 1", "m exit 3">>, <<"C05", "C06">>))),
     Long([Sc("slow-giveup", <<"m create 1", "m create 2", "T1 blocksd", "T1 set 1", "T1 park spin", "T2 set 1", "T2 park spin", "m await 1 2", "m exit 3">>, <<"C03", "C06">>) EXCEPT !.exp.giveup = 1]),
     Sc("late-fini", <<"m create 1", "cb:init_thread set 1", "cb:init_thread await 2", "T1 set 3", "T1 ret 1", "cb:fini_process set 2", "cb:fini_process await 3", "cb:fini_process ms 8", "m await 1", "m exit 3">>, <<"C05">>),
     Sc("late-fini2", <<"m create 2", "T2 set 1", "T2 park sem", "m await 1", "m create 1", "cb:init_thread#2 set 1", "cb:init_thread#2 await 2", "T1 set 3", "T1 pexit 1", "cb:fini_process set 2", "cb:fini_process await 3", "cb:fini_process ms 8", "m await 1 2", "m _exit 3">>, <<"C05">>) >>

(* --- fork --- *)
FA == <<"C10", "C11">>
KidEnds == <<"exit 4", "_exit 4", "_Exit 4", "pexit 0", "exec v @H@/vfprobe 2 keep">>
Fork ==
  Flat([f \in 1..2 |-> Flat([k \in DOMAIN KidEnds |->
    LET F == <<"fork", "vfork">>[f] IN
    << XX(Sc("fork-m-" \o N(f) \o N(k), <<"m " \o F \o " K1", "m reap", "K1 q", "K1 " \o KidEnds[k], "m q", "m exit 1">>, FA)),
       XX(Sc("fork-mt-" \o N(f) \o N(k), <<"m create 1", "T1 set 1", "T1 park spin", "m await 1", "m " \o F \o " K1", "m reap", "K1 q", "K1 " \o KidEnds[k], "m exit 1">>, FA)),
       XX(Sc("fork-t-" \o N(f) \o N(k), <<"m create 1", "T1 " \o F \o " K1", "T1 reap", "T1 ret 1", "K1 q", "K1 " \o KidEnds[k], "m join 1", "m exit 1">>, FA)),
       XX(Sc("fork-t2-" \o N(f) \o N(k), <<"m create 1", "m create 2", "T2 set 1", "T2 park sem", "T1 await 1", "T1 " \o F \o " K1", "T1 reap", "T1 exit 1", "K1 create 3", "K1 q", "K1 create 4", "K1 join 3", "T3 q", "T3 ret 1", "T4 set 2", "T4 park spin", "K1 await 2", "K1 " \o KidEnds[k], "m park sem">> \o PX(IF k = 4 THEN 5 ELSE 1), FA)),
       XX(Sc("fork-thr-" \o N(f) \o N(k), <<"m " \o F \o " K1", "m reap", "K1 create 1", "T1 q", "T1 set 1", "T1 park yield", "K1 await 1", "K1 " \o KidEnds[k], "m create 2", "m join 2", "m exit 1">> \o PX(IF k = 4 THEN 5 ELSE 1), FA)) >>])]) \o
  << Sc("fork-nest", <<"m fork K1", "m reap", "K1 fork K2", "K1 reap", "K1 exit 2", "K2 fork K3", "K2 reap", "K2 q", "K2 exit 3", "K3 q", "K3 create 1", "K3 join 1", "K3 exit 4", "m exit 1">>, FA),
     Sc("fork-two", <<"m fork K1", "m fork K2", "m reap", "K1 exit 2", "K2 exit 3", "m exit 1">>, FA),
     Sc("fork-fail", <<"m failfork 1", "m fork K1", "m fork K2", "m reap", "K2 exit 3", "m failfork 1", "m vfork K1", "m exit 1">>, FA),
     Sc("fork-fail-errno", <<"cb:post_fork errno 77", "m failfork 1", "m fork K1", "m fork K2", "m reap", "K2 exit 3", "m failfork 1", "m vfork K1", "m exit 1">>, FA),
     Sc("fork-fail-thr", <<"m create 1", "T1 failfork 1", "T1 fork K1", "T1 fork K2", "T1 reap", "T1 ret 1", "K2 exit 3", "m join 1", "m exit 1">>, FA),
     Sc("fork-cont", <<"m fork K1", "K1 cont", "m q", "m create 1", "m join 1", "m exit 1">>, FA),
     Sc("fork-cont2", <<"m create 1", "m join 1", "m fork K1", "K1 cont", "m fork K2", "K2 cont", "m q", "m create 2", "m join 2", "m exit 1">>, FA),
     Sc("fork-conc", <<"m createn 1 4", "T* fork K1", "T* reap", "T* ret 1", "K1 q", "K1 exit 7", "m joinn 1 4", "m exit 1">>, FA),
     Sc("fork-many", <<"m repeat 15 R", "R fork K1", "R reap", "K1 exit 7", "m exit 1">>, FA),
     Sc("fork-atexit", <<"m atexit 0", "m fork K1", "m reap", "K1 exit 7", "m exit 1">>, FA),
     Sc("fork-atexit2", <<"m create 1", "m join 1", "m atexit 0", "m fork K1", "m reap", "K1 atexit 1", "K1 create 2", "K1 join 2", "K1 ret 7", "m exit 1">>, FA),
     Sc("fork-in-atexit", <<"m atexit 0", "A0 fork K1", "A0 reap", "K1 exit 7", "m exit 1">>, FA),
     Sc("fork-in-atexit-thr", <<"m atexit 0", "m create 1", "T1 set 1", "T1 park sem", "m await 1", "A0 fork K1", "A0 reap", "K1 create 2", "K1 join 2", "T2 q", "K1 _exit 7", "m exit 1">>, FA),
     Sc("fork-in-fini-thr", <<"m create 1", "T1 set 1", "T1 park sem", "m await 1", "cb:fini_process#1 fork K1", "cb:fini_process#1 reap", "K1 create 2", "K1 join 2", "T2 q", "K1 create 3", "T3 set 2", "T3 park spin", "K1 await 2", "K1 exit 7", "m exit 1">>, FA),
     Sc("fork-in-fini-own", <<"m create 1", "T1 set 1", "T1 exit 1", "cb:fini_process#1 fork K1", "cb:fini_process#1 reap", "K1 create 2", "K1 join 2", "T2 q", "K1 create 3", "T3 set 2", "T3 park spin", "K1 await 2", "K1 exit 7", "m park sem">>, FA),
     Sc("fork-in-fini-sig", <<"m create 1", "T1 set 1", "T1 park sem", "m await 1", "cb:fini_process#1 fork K1", "cb:fini_process#1 reap", "K1 create 2", "T2 q", "T2 fatal 10 raise", "K1 park sem", "m exit 1">>, FA),
     Sc("fork-in-fini", <<"cb:fini_process#1 fork K1", "cb:fini_process#1 reap", "K1 exit 7", "m exit 1">>, FA),
     Sc("fork-in-begin", <<"cb:begin_exit#1 fork K1", "cb:begin_exit#1 reap", "K1 exit 7", "m create 1", "T1 set 1", "T1 park sem", "m await 1", "m exit 1">>, FA),
     Sc("fork-during-exit", <<"m create 1", "T1 blocksd", "T1 set 1", "T1 await 2", "T1 fork K1", "T1 reap", "T1 unblocksd", "T1 park sem", "K1 q", "K1 create 5", "K1 join 5", "T5 q", "T5 ret 1", "K1 exit 7",
           "cb:begin_exit set 2", "m await 1", "m exit 1">>, FA),
     Sc("fork-during-exit2", <<"m create 1", "m create 2", "T1 blocksd", "T1 set 1", "T1 await 2", "T1 fork K1", "T1 reap", "T1 unblocksd", "T1 park sem", "K1 create 5", "T5 set 4", "T5 park spin", "K1 await 4", "K1 exit 7",
           "T2 set 1", "T2 park spin", "cb:fini_thread@2 set 2", "m await 1 2", "m exit 1">>, FA),
     Sc("fork-in-atexit-run", <<"m atexit 0", "m create 1", "T1 set 1", "T1 park sem", "m await 1", "A0 fork K1", "A0 reap", "K1 create 2", "T2 set 2", "T2 park spin", "K1 await 2", "K1 exit 7", "m exit 1">>, FA \o <<"C05">>),
     Sc("fork-in-atexit-conc", <<"m atexit 0", "A0 fork K1", "A0 reap", "K1 create 2", "T2 set 1", "T2 await 2 2", "T2 _exit 7",
        "cb:begin_exit set 2", "cb:begin_exit ms 8", "cb:fini_process ms 8", "K1 await 1", "K1 exit 5", "m exit 1">>, FA \o <<"C02">>),
     Sc("fork-ret", <<"m fork K1", "m reap", "K1 atexit 1", "K1 exit 4", "m ret 1">>, FA),
     Sc("fork-thr-cont-ret", <<"m create 1", "T1 fork K1", "K1 cont", "T1 q", "T1 ret 5", "m join 1", "m ms 5", "m exit 3">>, FA),
     Sc("fork-thr-cont-pexit", <<"m create 1", "T1 fork K1", "K1 cont", "T1 q", "T1 create 2", "T1 join 2", "T2 q", "T2 ret 1", "T1 pexit 5", "m join 1", "m ms 5", "m exit 3">>, FA),
     Sc("fork-thr-cont-cancel", <<"m create 1", "T1 fork K1", "K1 create 2", "K1 cont", "T2 ms 2", "T2 cancel 1", "T2 ret 1", "T1 set 1", "T1 park sem", "m await 1", "m cancel 1", "m join 1", "m ms 9", "m exit 3">>, FA),
     Sc("fork-thr-cont-exit", <<"m create 1", "T1 fork K1", "K1 cont", "T1 q", "T1 exit 5", "m park sem">>, FA),
     Sc("fork-slow", <<"cb:post_fork ms 5", "cb:pre_fork ms 2", "m fork K1", "m reap", "K1 exit 3", "m exit 1">>, FA),
     Sc("fork-churn", <<"m createn 1 4", "T* repeat 10 R", "R create %60", "R us 100", "TX ret 1", "m repeat 6 RF", "RF fork K1", "RF reap", "K1 create 70", "K1 join 70", "T70 q", "K1 exit 4", "m joinn 1 4", "m exit 1">>, FA),
     Sc("rfork", <<"m rfork K1", "m reap", "K1 rexit 3", "m exit 1">>, <<"C14">>),
     Sc("rfork2", <<"m create 1", "T1 rfork K1", "T1 reap", "T1 ret 1", "K1 rexit 3", "m join 1", "m exit 1">>, <<"C14">>),
     Sc("rfork-fail", <<"m failfork 1", "m rfork K1", "m rfork K1", "m reap", "K1 rexit 3", "m exit 1">>, <<"C14">>) >>
FailFix(s) == IF s.id \in {"fork-fail", "fork-fail-errno", "fork-fail-thr", "rfork-fail"} THEN [s EXCEPT !.exp.failfork = 1] ELSE s

Byp ==
  LET A == <<"C14">> IN
  << Sc("rexit", <<"m atexit 0", "m rexit 5">>, A),
     Sc("rexit-thr", <<"m create 1", "T1 rexit 5", "m park sem">>, A),
     Sc("rexit-threads", <<"m createn 1 3", "T* set 1", "T* park spin", "m await 1 3", "m rexit 6">>, A),
     Sc("rexit-cb", <<"cb:begin_exit rexit 6", "m exit 3">>, A),
     Sc("rabort", <<"m rabort">>, A), Sc("rabort-thr", <<"m create 1", "T1 rabort", "m park sem">>, A),
     Sc("rabort-pend", <<"m mask proc block 15", "m snd 15 raise", "m rabort">>, A),
     Sc("rabort-pend-thr", <<"m create 1", "T1 mask pthr block 10", "T1 snd 10 raise", "T1 rabort", "m park sem">>, A),
     Sc("rabort-masked", <<"m mask proc block all", "m rabort">>, A),
     Sc("rabort-handler", <<"m signal 6 h0", "m rabort">>, A),
     Sc("rabort-client", <<"m csa 6 c0", "m rabort">>, A),
     Sc("rabort-threads", <<"m createn 1 3", "T* set 1", "T* park spin", "m await 1 3", "m rabort">>, A) >>

(* --- a fini-thread callback that itself ends the process *)
InFini ==
  Flat([i \in DOMAIN AgainOps |-> LET o == AgainOps[i] IN
   << XX(Sc("infini-shot-" \o N(i), <<"m create 1", "T1 set 1", "T1 park spin", "cb:fini_thread@1 " \o o, "m await 1", "m exit 3">>, EX)),
      XX(Sc("infini-shot2-" \o N(i), <<"m create 1", "m create 2", "T1 set 1", "T1 park sem", "T2 set 1", "T2 park yield", "cb:fini_thread@1 ms 5", "cb:fini_thread@1 " \o o, "cb:fini_thread@2 ms 9", "m await 1 2", "m exit 3">>, EX)),
      XX(Sc("infini-main-" \o N(i), <<"m create 1", "T1 await 1", "T1 exit 3", "cb:fini_thread#1 " \o o, "m set 1", "m park sem">>, EX)),
      XX(Sc("infini-own-" \o N(i), <<"m create 1", "m create 2", "T2 set 1", "T2 park sem", "m await 1", "T1 await 1", "T1 ret 1", "cb:fini_thread@1 " \o o, "m park sem">>, EX)),
      XX(Sc("infini-win-" \o N(i), <<"m create 1", "T1 exit 3", "cb:fini_thread@1 " \o o, "m park sem">>, EX)) >>]) \o
  << Sc("infini-sig", <<"m create 1", "T1 set 1", "T1 park spin", "cb:fini_thread@1 fatal 15 raise", "m await 1", "m exit 3">>, EX),
     Sc("infini-all", <<"m createn 1 4", "T* set 1", "T* park spin", "cb:fini_thread _exit 5", "m await 1 4", "m exit 3">>, EX) >>

(* --- the process is ended by a thread that the client ignores *)
IgnEnd ==
  LET A == EX \o <<"C09">>
      I(l) == <<"m disable", "m create 1", "m create 9", "m enable", "m create 2", "T2 set 1", "T2 park spin", "T1 await 1 1">> \o l
      P == <<"m park sem">> IN
  Flat([i \in DOMAIN ThrEnds |->
   << XX(Sc("ignend-" \o N(i), I(<<"m atexit 0", "T9 ret 1", "T1 " \o ThrEnds[i]>>) \o P, A)),
      XX(Reps(Sc("ignend-two-" \o N(i), I(<<"T9 await 1 1", "T9 exit 4", "T1 " \o ThrEnds[i]>>) \o P, A), 3)),
      XX(Reps(Sc("ignend-slow-" \o N(i), I(<<"T9 await 2 1", "T9 exit 4", "cb:begin_exit set 2", "cb:begin_exit ms 8", "cb:fini_process ms 8", "T1 " \o ThrEnds[i]>>) \o P, A), 2)),
      XX(Reps(Sc("ignend-mon-" \o N(i), I(<<"m create 3", "T3 await 1 1", "T3 exit 4", "T1 " \o ThrEnds[i]>>) \o P, A), 2)),
      XX(Reps(Sc("ignend-main-" \o N(i), I(<<"T1 " \o ThrEnds[i], "m await 1 1", "m exit 4">>), A), 2)) >>]) \o
  Flat([i \in 1..3 |-> Flat([j \in DOMAIN AgainOps |-> LET t == "T1 " \o ThrEnds[i] IN
   << Sc("ignend-be-" \o N(i) \o N(j), I(<<"cb:begin_exit " \o AgainOps[j], t>>) \o P, A),
      Sc("ignend-fp-" \o N(i) \o N(j), I(<<"cb:fini_process " \o AgainOps[j], t>>) \o P, A),
      Sc("ignend-at-" \o N(i) \o N(j), I(<<"m atexit 0", "A0 " \o AgainOps[j], t>>) \o P, A) >>])])

(* --- a thread is cancelled while it ends the process *)
CxEnds == ThrEnds \o <<"fatal 15 raise">>
Cancel ==
  Flat([i \in DOMAIN CxEnds |-> LET t == "T1 " \o CxEnds[i] IN
   << XX(Sc("cx-be-" \o N(i), <<"m create 1", "cb:begin_exit set 1", "cb:begin_exit cp 12", t, "m await 1", "m cancel 1", "m park sem">>, EX)),
      XX(Sc("cx-fp-" \o N(i), <<"m create 1", "cb:fini_process set 1", "cb:fini_process cp 12", t, "m await 1", "m cancel 1", "m park spin">>, EX)),
      XX(Sc("cx-ft-" \o N(i), <<"m create 1", "cb:fini_thread@1 set 1", "cb:fini_thread@1 cp 12", t, "m await 1", "m cancel 1", "m park sem">>, EX)),
      XX(Sc("cx-ft2-" \o N(i), <<"m create 2", "T2 set 2", "T2 park sem", "m await 2", "m create 1", "cb:fini_thread@2 set 1", "cb:fini_thread@2 cp 12", t, "m await 1", "m cancel 1", "m cancel 2", "m park spin">>, EX)),
      XX(Sc("cx-lose-" \o N(i), <<"m create 1", "cb:begin_exit set 1", "cb:begin_exit cp 20", "m create 2", "T2 await 1", "T2 exit 5", t, "m await 1", "m ms 8", "m cancel 2", "m park sem">>, EX)),
      XX(Sc("cx-both-" \o N(i), <<"m create 1", "cb:begin_exit set 1", "cb:begin_exit cp 12", t, "m await 1", "m cancel 1", "m exit 4">>, EX)) >>]) \o
  << Sc("cx-own-ret", <<"m create 1", "cb:fini_thread set 1", "cb:fini_thread cp 12", "T1 ret 3", "m await 1", "m cancel 1", "m join 1", "m create 2", "m join 2", "m exit 4">>, EX \o TA),
     Sc("cx-own-pexit", <<"m create 1", "cb:fini_thread set 1", "cb:fini_thread cp 12", "T1 pexit 3", "m await 1", "m cancel 1", "m join 1", "m create 2", "m join 2", "m exit 4">>, EX \o TA),
     Sc("cx-own-cancel", <<"m create 1", "cb:fini_thread set 1", "cb:fini_thread cp 12", "T1 park sem", "m cancel 1", "m await 1", "m cancel 1", "m join 1", "m create 2", "m join 2", "m exit 4">>, EX \o TA),
     Sc("cx-own-many", <<"m createn 1 6", "cb:fini_thread set 1", "cb:fini_thread cp 9", "T* ret 3", "m await 1 6", "m cancel 1", "m cancel 3", "m cancel 5", "m joinn 1 6", "m exit 4">>, EX \o TA),
     Sc("cx-own-exit", <<"m create 1", "cb:fini_thread@1 set 1", "cb:fini_thread@1 cp 12", "T1 ret 3", "m await 1", "m cancel 1", "m exit 4">>, EX \o TA),
     Sc("cx-own-bc", <<"m sa 12 h0 - none", "m create 1", "cb:fini_thread@1 set 1", "cb:fini_thread@1 cp 12", "T1 ret 3", "m await 1", "m cancel 1", "m join 1", "m bcast 12", "m exit 4">>, EX \o TA \o <<"C23">>),
     Sc("cx-shot", <<"m create 1", "T1 set 2", "T1 park spin", "cb:fini_thread@1 set 1", "cb:fini_thread@1 cp 12", "m await 2", "m create 2", "T2 await 1", "T2 cancel 1", "T2 park spin", "m exit 4">>, EX \o TA),
     Sc("cx-init", <<"m create 1", "cb:init_thread set 1", "cb:init_thread cp 12", "m await 1", "m cancel 1", "m join 1", "m exit 4">>, EX) >>

All == Cancel \o IgnEnd \o Slow \o InFini \o Start \o EndMain \o EndThr \o Map(NullFix, EndSimple) \o Again \o Conc \o Pexit \o Map(NullFix, Thr) \o Query \o Ign \o Blk \o BlkEnd
       \o Map(FailFix, Fork) \o Byp \o Debug(Start, 3) \o Debug(EndMain, 9) \o Debug(Map(FailFix, Fork), 6) \o Debug(Byp, 3)
ASSUME Emit(All)
ASSUME PrintT(<<"GENERATED", Len(All)>>)
=============================================================================
